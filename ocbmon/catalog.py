"""All of the properties, and the files that are generated from them.

Run ``python3 -m ocbmon.catalog`` in /verif to write properties.jsonl and
MANIFEST.json.

"""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BND = "ocbpy/_boundary.py"
CYC = "ocbpy/cycle_boundary.py"
SCA = "ocbpy/ocb_scaling.py"
TIM = "ocbpy/ocb_time.py"
VEC = "ocbpy/vectors.py"
COR = "ocbpy/ocb_correction.py"
FIL = "ocbpy/boundaries/files.py"
SSJ = "ocbpy/boundaries/dmsp_ssj_files.py"
GEN = "ocbpy/instruments/general.py"
SUP = "ocbpy/instruments/supermag.py"
VOR = "ocbpy/instruments/vort.py"
PYS = "ocbpy/instruments/pysat_instruments.py"

EXPL = "exploration"
PROPS = []


def prop(pid, title, statement, over, text, why, mech, observe, technique,
         note, level=EXPL, state=()):
    """Register one property."""
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": sorted(set(ff for _, ff, _ in mech)),
                    "mechanism": [{"name": nn, "where": "{:s}: {:s}".format(
                        ff, ww)} for nn, ff, ww in mech],
                    "state": [{"name": nn, "meaning": mm, "where": ww}
                              for nn, mm, ww in state],
                    "observe_at": list(observe), "hook_needed": None},
        "technique": technique, "level": level, "note": note})


prop("P01", "Normalised coordinates follow the boundary",
     "For every boundary record, hemisphere, reference latitude, and radius "
     "correction, a magnetic location is normalised by moving the origin of "
     "the polar plane to the boundary centre and stretching distances so that "
     "the corrected boundary falls on the reference latitude. The output has "
     "the shape of the input, adaptive local times lie in [0, 24), the radius "
     "correction that was used is returned, and locations in the other "
     "hemisphere, undefined locations, and objects without a usable record "
     "give undefined values.",
     ["inputs", "configurations"],
     "all records, centres, radii, corrections, both hemispheres, reference "
     "latitudes, scalar, list, and array input of any shape",
     "The tests compare a few stored numbers at one or two records of the "
     "sample files.",
     [("normalisation", BND, "OCBoundary.normal_coord"),
      ("corrections", COR, "circular, elliptical, harmonic")],
     ["return value of the normalisation"],
     "reference-model monitor over random executions",
     "Random sampling against an independent complex-plane model, tolerance "
     "1e-9 degrees.")

prop("P02", "Normalisation can be undone",
     "Converting a magnetic location to boundary coordinates and back, or "
     "boundary coordinates to a magnetic location and back, returns the "
     "original location, for every boundary record, hemisphere, reference "
     "latitude, and correction, given the radius correction that was used. "
     "Undefined locations and objects without a usable record give undefined "
     "values in the shape of the input.",
     ["inputs", "configurations"],
     "all records, corrections, hemispheres, and locations of the hemisphere "
     "of the boundary",
     "The tests revert one or two locations with a coarse tolerance.",
     [("normalisation", BND, "OCBoundary.normal_coord"),
      ("reversion", BND, "OCBoundary.revert_coord")],
     ["return values of both conversions"],
     "round-trip oracle over random executions",
     "Random sampling; the forward direction is judged by P01.")

prop("P03", "Geographic input agrees with the magnetic location it implies",
     "Normalising a geodetic or geocentric location with a solar local time, "
     "at any height and with any tracing method, gives what normalising the "
     "magnetic location it implies at the time of the boundary gives; "
     "reverting to geodetic or geocentric coordinates gives the geographic "
     "location of the magnetic location. This holds for each element, with "
     "one height or one height for each location, for single and paired "
     "boundaries.",
     ["inputs", "configurations"],
     "all locations, heights, record times, coordinate systems, tracing "
     "methods, and input forms",
     "The tests use one height and one time, mostly scalars.",
     [("geographic conversion", BND, "OCBoundary.normal_coord, "
       "OCBoundary.revert_coord, DualBoundary.normal_coord, "
       "DualBoundary.revert_coord"),
      ("solar local time", TIM, "slt2glon, glon2slt")],
     ["return values of the conversions"],
     "differential monitor against element-wise aacgmv2 conversions",
     "aacgmv2 is trusted; locations where it does not return are left out.")

prop("P04", "Stored boundary locations lie on the boundary",
     "Requesting the boundary latitude at any local times stores, for each "
     "selected record, the latitudes at which normalisation gives the "
     "reference latitude, with undefined values where no boundary exists. "
     "Values stored for other records or at an earlier request stay as they "
     "were unless overwriting is requested, and longitudes are those of the "
     "local times at the record time.",
     ["inputs", "histories"],
     "all records, corrections, local times, selections, options, and "
     "histories of requests on one object",
     "The tests request a few local times in fixed histories.",
     [("boundary latitude", BND, "OCBoundary.get_aacgm_boundary_lat"),
      ("paired", BND, "DualBoundary.get_aacgm_boundary_lats")],
     ["stored boundary latitudes, local times, and longitudes"],
     "shadow-state monitor over random histories",
     "Random histories against an analytic intersection of the boundary and "
     "the meridian; MLT within 1e-6 of the tangent are not judged.",
     state=[("aacgm_boundary_lat", "boundary latitude of each record", BND)])

prop("P05", "Paired boundaries join three regions consistently",
     "With an open-closed and an equatorward auroral boundary, a location "
     "poleward of the first is normalised like the first boundary alone, the "
     "latitude of a location equatorward of the second is multiplied so that "
     "the second boundary falls on its reference latitude, and a location "
     "between them is placed in proportion between the two reference "
     "latitudes, wherever the first boundary encloses the pole and lies "
     "poleward of the second. Reverting the result returns the location, and "
     "both are undefined for locations of the other hemisphere, undefined "
     "input, and an unusable record.",
     ["inputs", "configurations", "histories"],
     "all pairs, corrections, hemispheres, reference latitudes, locations, "
     "and histories of stored boundary latitudes",
     "The tests compare stored numbers for one pair of sample files.",
     [("paired normalisation", BND, "DualBoundary.normal_coord"),
      ("paired reversion", BND, "DualBoundary.revert_coord"),
      ("radii", BND, "DualBoundary.calc_r")],
     ["return values of both conversions"],
     "reference-model and round-trip monitor over random histories",
     "Random sampling against a scalar model of the three regions.")

prop("P06", "Boundaries are paired once, in order, within tolerance",
     "Paired boundaries hold each acceptable open-closed boundary together "
     "with the closest remaining acceptable equatorward boundary within the "
     "time tolerance, in order of time, using no boundary twice and losing no "
     "pair. The index of the pair always refers to the two records of that "
     "pair, for any history of index changes, also out of range.",
     ["inputs", "histories"],
     "all time series of both boundaries, gaps, duplicates, quality criteria, "
     "tolerances, and index histories",
     "The tests pair two fixed sample files.",
     [("pairing", BND, "DualBoundary.set_good_ind"),
      ("index", BND, "DualBoundary.rec_ind, DualBoundary.get_next_good_ind")],
     ["pair indices and times, record indices after each step"],
     "brute-force matching oracle and index-history monitor",
     "Random time series against a greedy brute-force pairing.",
     state=[("rec_ind", "index of the current pair", BND)])

prop("P07", "Exactly the records that pass the quality criteria are selected",
     "Stepping through the records visits, in order, each record whose figure "
     "of merit lies within the inclusive limits (of the instrument, or those "
     "supplied) and that meets all of the supplied criteria, and no other; "
     "undefined values never meet a criterion. Afterwards, the index equals "
     "the number of records.",
     ["inputs", "histories"],
     "all files, limits, criteria on any attribute, and starting indices",
     "The tests step through sample files with a few criteria.",
     [("selection", CYC, "retrieve_all_good_indices, satellite_track"),
      ("stepping", BND, "OCBoundary.get_next_good_ocb_ind"),
      ("limits", BND, "OCBoundary.inst_defaults")],
     ["sequence of record indices"],
     "event-log monitor against a filter of the parsed records",
     "Random files and criteria; every record is judged.")

prop("P08", "Data are matched to the closest good boundary within tolerance",
     "Stepping through time-ordered data matches each datum to the closest "
     "acceptable boundary within the time tolerance, or to none when there is "
     "none, without skipping or repeating data, for single and paired "
     "boundaries. The matching always ends.",
     ["inputs", "histories"],
     "all data and boundary time series with gaps, duplicates, and ties, all "
     "tolerances and quality criteria",
     "The tests match sample data with one tolerance.",
     [("matching", CYC, "match_data_ocb"),
      ("selection", CYC, "reset_rec_ind, retrieve_all_good_indices")],
     ["sequence of (data index, record index)"],
     "event-log monitor against a brute-force matching table",
     "Random time series; termination is judged by a logical step budget.")

prop("P09", "Loading a boundary file yields exactly its records",
     "Loading a boundary file of any supported format gives, in order, each "
     "record within the inclusive time window, with its time, radius, centre, "
     "figure of merit, and remaining columns, however many there are, and the "
     "defaults of the instrument for limits, corrections, and reference "
     "latitude. A missing file gives an object without records.",
     ["inputs", "configurations"],
     "all files of the three formats, all windows, options, and hemispheres",
     "The tests load a few sample files with many records.",
     [("loading", BND, "OCBoundary.load, OCBoundary.inst_defaults"),
      ("classes", BND, "EABoundary, DualBoundary"),
      ("times", TIM, "year_soy_to_datetime, convert_time")],
     ["attributes of the loaded object"],
     "differential monitor against the generated records",
     "Files are written by the monitor, which knows what they state.")

prop("P10", "Times are converted exactly",
     "Every documented representation of a calendar time (year and second of "
     "year, year and day of year, date and time of day, date text with any "
     "format) is converted to that time to within a microsecond, across the "
     "ends of days, months, leap years, and years.",
     ["inputs"],
     "all times from 1900 to 2100 and all documented representations",
     "The tests convert one time.",
     [("conversion", TIM, "convert_time, year_soy_to_datetime, "
       "yyddd_to_date, get_datetime_fmt_len")],
     ["returned times"],
     "inverse-generator monitor over random times",
     "The calendar arithmetic of the monitor is its own.")

prop("P11", "Cyclic angles and local times keep their meaning",
     "Conversions between degrees, hours, and radians, between longitude and "
     "solar local time, and into a cyclic range keep the angle modulo its "
     "period and give a result inside of the documented range (at least the "
     "minimum, below the maximum), for every finite value, scalar or array. "
     "Undefined values stay undefined.",
     ["inputs"],
     "all finite angles, large and small, next to the edges of a period, and "
     "all times of day",
     "The tests convert a few values inside of one period.",
     [("angles", TIM, "deg2hr, hr2deg, hr2rad, rad2hr, "
       "slt2glon, glon2slt, datetime2hr, fix_range")],
     ["returned angles"],
     "algebraic monitor over random and edge values",
     "Tolerance scales with the rounding of the input.")

prop("P12", "Vector rotation is a rotation",
     "Re-orienting a horizontal vector from one pole to another keeps its "
     "horizontal length and the vertical component, and gives the components "
     "along the great circle to the new pole and perpendicular to it, "
     "whatever the location, the vector, and the pole, in both hemispheres. "
     "The pole angle, the quadrants, and the rotation that lead there agree "
     "with spherical trigonometry.",
     ["inputs"],
     "all locations, vectors, and poles, next to quadrant edges, meridians, "
     "and the pole, in scalar and array form",
     "The tests try one vector in each pair of quadrants.",
     [("rotation", VEC, "adjust_vector, calc_vec_pole_angle, "
       "define_pole_quadrants, define_vect_quadrants, "
       "calc_dest_polar_angle, calc_dest_vec_sign")],
     ["rotated components, pole angles, quadrants"],
     "reference-model monitor with three-dimensional rotation",
     "Known finding: data aligned with and poleward of the new pole.")

prop("P13", "Vector data are located, re-oriented, and scaled consistently",
     "Vector data with magnetic or geographic locations and components get "
     "the boundary location of their position, components along the "
     "directions of the boundary pole scaled with the requested function, "
     "the unscaled-to-scaled radii, and a magnitude that is the length of the "
     "components. This holds for one or many data with one or many boundary "
     "records, each height, and any history of record changes, and locations "
     "of the other hemisphere are undefined.",
     ["inputs", "histories", "configurations"],
     "all boundaries, locations, vectors, heights, coordinate systems, index "
     "layouts, and index histories",
     "The tests use one datum or a few with one boundary record.",
     [("vectors", SCA, "VectorData.set_ocb, VectorData.scale_vector, "
       "VectorData.update_loc_coords, VectorData.update_vect_coords_to_mag, "
       "VectorData.define_quadrants, VectorData.calc_vec_pole_angle"),
      ("rotation", VEC, "adjust_vector, get_pole_loc, archav, hav")],
     ["attributes of the vector object"],
     "reference-model monitor with three-dimensional rotation",
     "aacgmv2 is trusted.  Known finding: location of a southern boundary "
     "pole.", state=[("ocb_ind", "index of the boundary records", SCA)])


prop("P14", "Scaling functions follow their laws and can be undone",
     "The electric field scaled by normal_evar keeps the potential across the "
     "unscaled and scaled cap (the field times the radius is conserved), the "
     "curl of the field scaled by normal_curl_evar conserves the curl times "
     "the squared radius, and scaling in steps or back to the first radius is "
     "consistent. hav and archav are the haversine and its inverse, with "
     "rounding errors below zero treated as zero and values out of range "
     "undefined. Each function works elementwise on scalars and arrays.",
     ["inputs"],
     "all finite fields, radii, reference colatitudes, and angles",
     "The tests compare one number for each function.",
     [("scaling", SCA, "normal_evar, normal_curl_evar"),
      ("haversine", VEC, "hav, archav"),
      ("old names", SCA, "hav, archav")],
     ["return values"],
     "reference-model and metamorphic monitor over random executions",
     "Random sampling, relative tolerance 1e-12.")

prop("P15", "SuperMAG processing writes each matched observation correctly",
     "Processing a SuperMAG file writes, for each record of the hemisphere "
     "that has a good boundary within the allowed time, each station once, in "
     "order, with its own observations, its location in boundary coordinates, "
     "and its magnetic field scaled with the boundary of its own time. "
     "Nothing else is written, undefined values stay undefined, and data of "
     "both hemispheres is rejected unless a hemisphere is chosen.",
     ["inputs", "configurations"],
     "all SuperMAG files, boundaries (single and paired, by file or object), "
     "tolerances, criteria, and scaling options",
     "The tests compare one output file for one input file.",
     [("processing", SUP, "supermag2ascii_ocb"),
      ("matching", CYC, "match_data_ocb"),
      ("scaling", SCA, "VectorData")],
     ["every line of the output file"],
     "offline exactly-once and ordering checker over output files",
     "Known finding: location of a southern boundary pole.")

prop("P16", "Vorticity processing writes each matched observation correctly",
     "Processing a vorticity file writes, for each record of the hemisphere "
     "that has a good boundary within the allowed time, one line, in order, "
     "with its time, its own data if asked for, its location in boundary "
     "coordinates, and its vorticity scaled with the boundary of its own "
     "time. Nothing else is written, and data of both hemispheres is rejected "
     "unless a hemisphere is chosen.",
     ["inputs", "configurations"],
     "all vorticity files, boundaries (single and paired, by file or object), "
     "tolerances, criteria, and scaling functions",
     "The tests compare one output file for one input file.",
     [("processing", VOR, "vort2ascii_ocb"),
      ("matching", CYC, "match_data_ocb"),
      ("scaling", SCA, "normal_curl_evar")],
     ["every line of the output file"],
     "offline exactly-once and ordering checker over output files",
     "Known finding: radius used for paired boundaries that lost a record.")

prop("P24", "Radius corrections follow their published forms",
     "The circular, elliptical, and harmonic corrections give the published "
     "functions of local time for every parameter, instrument, and method, "
     "elementwise for scalars and arrays and repeating each day, the input is "
     "not altered, and unknown "
     "methods or instruments are rejected.",
     ["inputs", "configurations"],
     "all local times, methods, instruments, and constants",
     "The tests compare a few local times with stored numbers.",
     [("corrections", COR, "circular, elliptical, harmonic")],
     ["return values"],
     "reference-model monitor over random executions",
     "Random sampling against formulas written from the documentation.")

prop("P27", "Vorticity and SuperMAG files are loaded as written",
     "Loading a vorticity or SuperMAG file returns one entry per record and "
     "station in the order of the file, with the value written for each "
     "quantity, fill values undefined, and the time and indices of its own "
     "block. A vorticity file with a malformed or incomplete block and files "
     "that are missing, empty, or unreadable give no data, so values are "
     "never shifted or mixed.",
     ["inputs", "fault_sequences"],
     "all files with any number of blocks and entries, and truncated or "
     "damaged ones",
     "The tests load one short sample of each type.",
     [("vorticity", VOR, "load_vorticity_ascii_data"),
      ("SuperMAG", SUP, "load_supermag_ascii_data"),
      ("files", GEN, "test_file")],
     ["returned dictionary"],
     "write-read oracle over generated and damaged files",
     "Random sampling; SuperMAG records without stations are out of scope.")


prop("P18", "The general ASCII loader returns the table that was written",
     "Loading a column-aligned ASCII file returns the header and, under its "
     "own name, every column with every value in the order of the file and "
     "with its type, where columns that hold parts of a date are combined to "
     "the exact time. Comments, separators, header lines, and the place of "
     "the date columns do not matter, and the lists given by the caller are "
     "not altered. Files that are missing, empty, too large, or without "
     "column names give a warning and no data.",
     ["inputs", "configurations"],
     "all tables with named columns, date formats split over several columns, "
     "header lengths, comments, separators, and typed columns",
     "The tests load a handful of tiny tables, with one or two date formats.",
     [("loader", GEN, "load_ascii_data"), ("file check", GEN, "test_file"),
      ("date columns", TIM, "get_datetime_fmt_len, convert_time")],
     ["returned header and data"],
     "round-trip monitor over random files",
     "Random tables; each column has a name.")

prop("P19", "The default boundary file is the documented one",
     "Among the files of the boundary directory, exactly those that hold the "
     "requested boundary, hemisphere, instrument, and time range are "
     "candidates, and the default file is a candidate of the highest ranking "
     "instrument, in whichever order the directory is listed. Boundary "
     "objects made without a file load that file with its instrument, and "
     "without any candidate there is no file.",
     ["inputs", "configurations"],
     "all contents of the directory, instruments, boundaries, hemispheres, "
     "and time ranges with and without limits",
     "The tests see the files of the package and a handful of ranges.",
     [("directory", FIL, "get_boundary_directory"),
      ("candidates", FIL, "get_boundary_files"),
      ("choice", FIL, "get_default_file"),
      ("classes", BND, "OCBoundary, EABoundary, DualBoundary")],
     ["return values, loaded boundary objects"],
     "reference-model monitor over random directories",
     "The directory of the package is replaced by a scratch one.")

prop("P20", "DMSP SSJ crossings become boundaries, each once and in order",
     "Formatting DMSP SSJ files writes, for each satellite and hemisphere, "
     "every usable crossing of the input files once and in order of time to "
     "the file of its hemisphere and boundary, with the location of its "
     "boundaries in magnetic coordinates, and the written files can be loaded "
     "as they are. Files that cannot be used are left out, without any usable "
     "file there is an error and no output, and files are selected by their "
     "satellite and day.",
     ["inputs", "configurations"],
     "all sets of SSJ files, crossings, altitudes, and methods",
     "The tests need a download, and format two days of one satellite.",
     [("format", SSJ, "format_ssj_boundary_files"),
      ("selection", SSJ, "evaluate_dmsp_boundary_file")],
     ["every line of the four output files, returned names"],
     "offline exactly-once and ordering checker over output files",
     "AACGM locations come from the same library as those of the package.")

prop("P21", "Fetched DMSP SSJ files arrive completely, or the fetch fails",
     "Fetching DMSP SSJ files delivers each archived file of the requested "
     "satellites and days with its content to the chosen directory, returns "
     "exactly their names, and leaves nothing else behind. A download that "
     "fails at any step raises an error to the caller, restores the output "
     "streams, and neither hangs nor reports files that were not delivered. "
     "Unknown satellites and missing directories are refused before anything "
     "is downloaded.",
     ["fault_sequences", "inputs"],
     "all archives, requests, earlier contents of the directory, and faults "
     "of the download",
     "The tests need a network and never see a download fail.",
     [("fetch", SSJ, "fetch_ssj_boundary_files"),
      ("fetch and format", SSJ, "fetch_format_ssj_boundary_files")],
     ["directory contents, return value, exception, output streams"],
     "fault-injection monitor over the download",
     "The download is a stand-in with faults at each of its steps.",
     level="fault_enumeration")


prop("P17", "Boundary coordinates and scaled data are added to pysat data",
     "Adding a boundary to a pysat data set gives every sample the normalised "
     "coordinates, radius correction, and scaled variables and vectors of the "
     "boundary record that is closest in time, each in its own element, and "
     "fill values to the samples without a close record, in the other "
     "hemisphere, or without data. The data that were there stay as they "
     "were, samples beyond the allowed values are left out, and every new "
     "variable has metadata that name the boundary, units, and fill value. "
     "Unusable instruments, names, and vectors are refused.",
     ["inputs", "configurations"],
     "all time series and grids, magnetic and geographic locations, heights, "
     "scaled variables, vectors, tolerances, boundary types, and records",
     "The tests use a few times at constant locations.",
     [("processing", PYS, "add_ocb_to_data"),
      ("grids", PYS, "reshape_pad_mask_flatten"),
      ("metadata", PYS, "add_ocb_to_metadata"),
      ("matching", CYC, "match_data_ocb"), ("vectors", SCA, "VectorData")],
     ["data and metadata of the instrument"],
     "reference-model monitor over every added element",
     "Side of southern vectors follows the code, see the listed finding.")

prop("P25", "Locations along a satellite track are told from all others",
     "A location is selected exactly if it lies in the hemisphere of the "
     "track, within the allowed distance of the line through its two boundary "
     "locations, and not farther equatorward of the closer boundary location "
     "than allowed. This holds for tracks in any direction, also parallel to "
     "an axis, and for input of any shape; undefined locations are never "
     "selected. Negative distances and unknown hemispheres are refused.",
     ["inputs", "configurations"],
     "all tracks, distances, buffers, hemispheres, and locations",
     "The tests try one track with a few locations.",
     [("selection", CYC, "satellite_track")],
     ["returned mask"],
     "reference-model monitor over every location",
     "The width along rising tracks follows the code, see the finding.")


prop("P22", "No call alters the input of its caller or the process",
     "Arrays, lists, dictionaries, and files that a caller hands to any "
     "function or object keep their content, during that call and all later "
     "ones. Coordinate queries leave the records, settings, and record index "
     "of their boundary object alone, and processing data leaves the records "
     "of its boundaries alone. The working directory, environment, output "
     "streams, and numpy state of the process stay as they were.",
     ["inputs", "programs"],
     "all calls of the public interface, with every form of input",
     "Tests look at results, and hardly ever at the input after the call.",
     [("normalisation", BND, "normal_coord, revert_coord, "
       "get_aacgm_boundary_lat"), ("vectors", VEC, "adjust_vector"),
      ("vector objects", SCA, "VectorData"), ("times", TIM, "fix_range"),
      ("tracks", CYC, "satellite_track, match_data_ocb"),
      ("loader", GEN, "load_ascii_data"),
      ("SuperMAG", SUP, "supermag2ascii_ocb"), ("vorticity", VOR,
                                                "vort2ascii_ocb"),
      ("pysat", PYS, "add_ocb_to_data"),
      ("SSJ", SSJ, "format_ssj_boundary_files")],
     ["arguments, objects, files, and process state around each call"],
     "online before-and-after monitor below all workloads",
     "The workloads of all suites run below the monitor.")

prop("P29", "Results depend on input and data, never on earlier calls",
     "The result of a call depends only on its arguments and on the loaded "
     "data, settings, and current record of its object: repeated in any "
     "order, between any other calls, and on used or new objects, it is the "
     "same. Objects share no records or settings with others of the same "
     "file, and stored boundary locations are replaced only on request.",
     ["programs", "inputs"],
     "all histories of calls on one or several objects",
     "Tests use a new object for each call, in a fixed order.",
     [("boundaries", BND, "OCBoundary, EABoundary, DualBoundary"),
      ("vector objects", SCA, "VectorData"), ("vectors", VEC,
                                              "all functions"),
      ("times", TIM, "all functions"), ("corrections", COR,
                                        "all functions"),
      ("loader", GEN, "load_ascii_data")],
     ["return values and stored locations along histories of calls"],
     "history replay and used-versus-new differential monitor",
     "Tracing to geographic coordinates is left out.")


prop("P26", "Representations rebuild the object, and texts describe it",
     "Evaluating the representation of a boundary, pair of boundaries, or "
     "vector object gives an object of the same class with the same records, "
     "settings, corrections, locations, components, and scaling function. "
     "The readable form names the file, instrument, period, reference "
     "latitude, and corrections, and lists every vector and scaled vector "
     "exactly once with its own location, value, and index. Objects without "
     "data have both forms as well.",
     ["inputs", "configurations"],
     "all boundary and vector objects, before and after scaling",
     "The tests look for a few words in the text of one object.",
     [("boundary", BND, "OCBoundary.__repr__, OCBoundary.__str__"),
      ("pairs", BND, "DualBoundary.__repr__, DualBoundary.__str__"),
      ("vectors", SCA, "VectorData.__repr__, VectorData.__str__")],
     ["both texts, and the evaluated representation"],
     "round-trip monitor and exactly-once text checker",
     "Numpy prints eight digits of array elements.")


prop("P28", "Unusable input is refused, and only unusable input",
     "Hemispheres, corrections, instruments, coordinate systems, shapes, "
     "ranges, dates, pairs of boundaries, and files that cannot be used are "
     "refused with the documented exception before anything is calculated or "
     "written, while the same call with usable input is accepted.",
     ["inputs", "configurations"],
     "all valid calls, each with one part of its input spoilt",
     "The tests try single examples of wrong input.",
     [("boundaries", BND, "OCBoundary, EABoundary, DualBoundary"),
      ("vectors", SCA, "VectorData"), ("times", TIM, "fix_range, "
                                       "yyddd_to_date, convert_time"),
      ("corrections", COR, "elliptical, harmonic"),
      ("quadrants", VEC, "calc_dest_polar_angle, calc_dest_vec_sign"),
      ("matching", CYC, "match_data_ocb"),
      ("files", SUP, "supermag2ascii_ocb"), ("files", VOR,
                                             "vort2ascii_ocb")],
     ["exceptions, and the accepted twin of each refused call"],
     "paired accept-and-refuse monitor with input faults",
     "Only faults that the documentation names.")


prop("P23", "Arrays are answered element by element",
     "A function or method that takes arrays answers each element as it "
     "answers that element alone: with the elements permuted, repeated, taken "
     "in parts, handed over as lists or in several dimensions and any memory "
     "layout, or one by one, each gets the same result, in the shape of the "
     "input. This holds for boundary coordinates, stored boundaries, vectors, "
     "angles, local times, corrections, scaling functions, and satellite "
     "tracks.",
     ["inputs"], "any batch of elements and any regrouping of it",
     "The tests use arrays of equal or few values.",
     [("boundaries", BND, "normal_coord, revert_coord, "
       "get_aacgm_boundary_lat"),
      ("vector functions", VEC, "calc_vec_pole_angle, define_pole_quadrants, "
       "define_vect_quadrants, calc_dest_polar_angle, calc_dest_vec_sign, "
       "adjust_vector"), ("vector data", SCA, "VectorData, normal_evar, hav"),
      ("angles and hours", TIM, "deg2hr, hr2deg, slt2glon, fix_range"),
      ("corrections", COR, "circular, elliptical, harmonic"),
      ("tracks", CYC, "satellite_track")],
     ["the results of each element in several batches"],
     "metamorphic monitor over regrouped batches",
     "Geographic locations take one-dimensional input only.")


prop("P30", "Problems of the input are reported in the log, and only these",
     "Input that is not refused but cannot be used as it is leads to a "
     "warning or error in the log of the package that names what is "
     "concerned: boundary files that are missing, empty, or too large, files "
     "and instruments not named by a text, missing time columns, unknown "
     "selection criteria, stored boundary locations that are not replaced, "
     "locations in no region of paired boundaries beside others that are in "
     "one, reverting with poorly defined paired boundaries, data or "
     "boundaries without any match, "
     "magnitudes that contradict their components, boundary locations that "
     "do not fit new indices, tables without a header, ranges below one cycle, "
     "unknown boundary files, satellite files that cannot be formatted, and "
     "processing without data or boundaries. Usable input leads to no "
     "warning and no error.",
     ["inputs", "configurations", "programs"],
     "all input with and without each of these problems, in any history of "
     "calls",
     "The tests look for one message of one call; none checks that usable "
     "input is silent.",
     [("boundaries", BND, "OCBoundary, EABoundary, DualBoundary"),
      ("matching", CYC, "match_data_ocb"), ("vectors", SCA, "VectorData"),
      ("ranges", TIM, "hr2deg"), ("boundary files", FIL,
                                  "get_boundary_files"),
      ("satellite files", SSJ, "format_ssj_boundary_files"),
      ("file test", GEN, "test_file"),
      ("processing", SUP, "supermag2ascii_ocb, load_supermag_ascii_data"),
      ("processing", VOR, "vort2ascii_ocb"),
      ("pysat data", PYS, "add_ocb_to_data, add_ocb_to_metadata")],
     ["the records that reach a handler on the logger of the package"],
     "log monitor against a model of the problems in the input",
     "The wording of the messages is not judged, only their presence, level, "
     "number, and named subject.")


# ---------------------------------------------------------------------------
# More properties are registered above this line

def main():
    """Write properties.jsonl and MANIFEST.json."""
    checks = list()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fout:
        for pp in PROPS:
            assert len(pp["title"]) <= 80, pp["id"]
            line = {kk: pp[kk] for kk in ("id", "title", "statement",
                                          "quantifier", "why_tests_cant",
                                          "anchors")}
            fout.write(json.dumps(line) + "\n")
            checks.append({
                "property": pp["id"],
                "quick_cmd": "./check {:s} quick".format(pp["id"]),
                "thorough_cmd": "./check {:s} thorough".format(pp["id"]),
                "technique": pp["technique"], "level": pp["level"],
                "level_note": pp["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fout:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                   "not_applicable": []}, fout, indent=1)
        fout.write("\n")


if __name__ == "__main__":
    main()
