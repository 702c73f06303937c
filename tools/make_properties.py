"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "trackeddy/trackeddy.py"
G = "trackeddy/geometry.py"
U = "trackeddy/utils.py"
D = "trackeddy/decorators.py"
E = "trackeddy/eddy.py"
C = "trackeddy/src/cntr.c"
P = "trackeddy/physics.py"
FG = "trackeddy/generator/field_generator.py"
GF = "trackeddy/generator/gaussian_field_functions.py"
SNAP = "The tests detect a handful of Gaussians of fixed shape on fixed grids and count them."
TRACK = "One test follows two Gaussians moving east over 40 snapshots and compares the lengths of two tracks."
PBT = "property-based testing: "

P_ = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    if len(title) > 80:
        print(id, len(title), title)
    P_.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique, note))


prop("C01", "Every reported eddy is a real closed contour that meets all criteria",
     "Every eddy that the detection of a level reports has a closed contour whose vertices lie where the tracked field, interpolated linearly along the grid lines, equals that level. "
     "Its reported area, radius, centre, ellipse axes and tilt, eccentricity, errors, sign (of the mean of the field inside) and extremum (a grid point of the field at or within the contour, with the extreme value inside for that sign) are those of this contour and field, "
     "and they satisfy the size, ellipse area, eccentricity, similarity and Gaussian fit limits chosen by the user.",
     ["inputs", "configurations"], "all fields (any number and shape of features, noise, plateaus, missing values, units), grids, levels and criteria",
     SNAP + " None looks at the contour, area, extremum or criteria of a reported eddy over other fields.", [T, G, U, E],
     [("detection of one level", T + " _detect_one_level"), ("data within a contour, sign and extremum", U + " _mask_data_in_contour"), ("window around the contour", T + " _data_in_contour")],
     PBT + "generated fields, invariants of each reported eddy recomputed from the field with independent geometry", "random scenes; oracle independent of the repository except the similarity's ellipse sampling")
prop("C02", "Isolated resolved Gaussian eddies are found, once, with their true properties",
     "An isolated Gaussian anomaly of either sign that is resolved by the grid (at least three grid steps in the smaller semi axis of its contour, axis ratio at least 0.6) and larger than the level is reported exactly once, with an ellipse criterion of 1 and a size within the limit. "
     "Its reported sign, extremum, centre, semi axes, tilt, area and fitted Gaussian agree with the true ones within the resolution of the grid, and several Gaussians far from each other are each reported exactly once.",
     ["inputs", "configurations"], "all positions, amplitudes, sizes, axis ratios, tilts, signs, units and levels of 0.12 to 0.85 of the amplitude, and all arrangements of several",
     SNAP + " Amplitude, tilt, position within the cell, sign, units and level are hardly varied.", [T, G, U],
     [("detection of one level", T + " _detect_one_level"), ("fit of the Gaussian", G + " Fit_Surface")],
     PBT + "generated Gaussians with known truth", "ground truth of the generated Gaussians; domain limits calibrated and stated")
prop("C03", "Units, sign, reflection and longitude offset do not change what is found",
     "Multiplying the field and the levels by a power of two (another unit) gives exactly the same eddies, with the extremum scaled. "
     "Negating field and level, mirroring the field in latitude or longitude, or shifting all longitudes (also across 0 or 180 degrees, or by whole turns) gives the same eddies, negated, mirrored or shifted. "
     "Storing the latitudes or longitudes in the other order gives the same eddies.",
     ["inputs", "configurations"], "all fields, levels, scale factors from 2^-60 to 2^60, reflections and longitude shifts",
     "No test compares two related fields.", [T, G, U, P],
     [("detection of one level", T + " _detect_one_level"), ("search window with tolerances in degrees", T + " _data_in_contour"), ("area on the sphere", G + " area_latlon_polygon")],
     PBT + "metamorphic relations between detections of transformed fields", "metamorphic; geometric relations judged with ellipse criterion 1 and away from ties and limits")
prop("C04", "A result depends only on its inputs, not on earlier calls or failures",
     "Detecting a level or a snapshot, or tracking in time, gives bit for bit the result of the same call alone in a fresh process, whatever other trackers, levels, snapshots, failed calls, interrupted detections or eddy records came before. "
     "Neither the data set nor the settings of the user are ever modified.",
     ["histories", "fault_sequences"], "all sequences of detections, trackings, failing calls and uses of eddy records on several trackers and data sets in one process",
     "The tests run each call once; the tables and counters that detections share live for the whole process.", [T, D, E],
     [("shared tables and counters", D + " eddy_identifier"), ("reset", E + " Eddy.exit"), ("return of the tables", D + " check_return_eddies")],
     PBT + "stateful histories, differential against a fresh process", "histories of up to 9 calls; each compared with a fresh forked process")
prop("C05", "Several levels merge into one list where each feature appears at its best level",
     "The eddies of a snapshot over several levels are exactly those of the single levels, where an eddy whose extremum lies within its radius of the nearest extremum found at earlier levels counts as the same feature: it replaces the earlier one if both its ellipse and its Gaussian fit are better, and is dropped otherwise; any other is added. "
     "Kept eddies are unchanged, identifiers run from 0 without gaps, a level of zero is ignored, and levels can be given as a list, tuple or array in any order.",
     ["inputs", "histories", "configurations"], "all sequences of levels, numbers and arrangements of eddies per level and qualities of fit",
     "The tests use a few levels whose eddies coincide and count the eddies.", [T, U],
     [("merge over levels", T + " _detect_snapshot"), ("nearest previous eddy", U + " _detect_nearest"), ("replacement", U + " _update_better_eddy"), ("renumbering", U + " _merge_reindex_eddies")],
     PBT + "model-based: reference merge over generated levels, with a stand-in detection and with real fields", "reference model of the merge rule; exact equality of the merged set")
prop("C06", "Names, order and storage of coordinates and dimensions do not change the result",
     "The result is identical for any recognised name of the time, longitude and latitude dimensions, any order of the dimensions, with or without time, extra dimensions of length one, bounds or other variables, for 1-D coordinates or the same coordinates as 2-D variables, in memory, chunked or read from files. "
     "On rotated, sheared or stretched grids with 2-D coordinates an isolated Gaussian is found with its true contour, extremum and axes, and data sets without usable coordinates are rejected with a ValueError.",
     ["inputs", "configurations"], "all recognised names, orders, presence and storage of coordinates, and curvilinear grids",
     "All tests use (time, lat, lon) with 1-D coordinates in memory.", [T],
     [("recognition of coordinates", T + " identify_coords, check_coords"), ("grid points around a contour", T + " _data_in_contour, _get_data_in_contour")],
     PBT + "differential against the plain data set, ground truth on curvilinear grids", "names drawn from the recognised patterns")
prop("C07", "The tracked field is the chosen anomaly of the data, computed correctly",
     "Without a filter the tracked field is the data of the snapshot chosen by its index (an integer of Python or NumPy) or its date (a string); with the space filter it is the data minus its mean over the convolution window (missing values left out, zeros beyond the border, even sizes enlarged by one), minus its mean along the x dimension (meridional) or along the y dimension (zonal). "
     "Missing values become zero before the filter if nan treatment is chosen and stay missing otherwise; the raw data is unchanged, and an unknown filter type raises a ValueError.",
     ["inputs", "configurations"], "all fields, missing values, window sizes, filter types and snapshots",
     "The tests switch the filter off.", [T, D],
     [("choice of the filter", D + " filter_data"), ("space filter", T + " _space_filter"), ("missing values", T + " treat_nan")],
     PBT + "differential against a brute force filter", "the time filter and the Gaussian mode are not implemented in the repository")
prop("C08", "Each contour is reported once or discarded once, for its first failed criterion",
     "For every field, including constant, noisy and partly missing ones, the detection of a level ends without an error, and every contour of the field at that level is either reported once or listed once among the discarded contours. "
     "The reason given is the first criterion in the order open contour, size, ellipse, ellipse area, eccentricity, similarity, island, Gaussian fit that the contour fails.",
     ["inputs", "configurations"], "all fields, levels, criteria and nan treatments",
     "The tests never look at the discarded contours, and use smooth fields.", [T, D, E],
     [("order of the criteria", T + " _detect_one_level"), ("table of discarded contours", E + " Eddy.discarded")],
     PBT + "differential: outcome of each reference contour recomputed", "any field; values within 1e-6 of a limit may fall on either side")
prop("C09", "Eddies depend on their surroundings only, not on the rest of the domain",
     "An eddy is reported with exactly the same properties when the domain around its surroundings is enlarged, cropped, or filled with other eddies, noise or missing values. "
     "On the same grid this holds for any values at the points outside of its contour that belong to no cell that the contour crosses.",
     ["inputs", "configurations"], "all fields, all extensions or crops of the domain by up to 25 points on any side, and all values outside of the contour",
     "Each test has one domain.", [T, U],
     [("search window", T + " _data_in_contour"), ("window of the Gaussian fit", T + " _get_data_in_contour")],
     PBT + "metamorphic: detection in a domain and in its extension", "surroundings: the window of the Gaussian fit plus two points")
prop("C10", "Criteria act as independent filters and change nothing in the eddies they keep",
     "The eddies reported under any criteria are exactly those reported under the most lenient ones that satisfy the stricter limits (an eccentricity or fit equal to its limit is accepted), with identical properties. "
     "Skipping the Gaussian fit changes nothing but the Gaussian properties and the Gaussian criterion; islands (extremum zero) are never reported.",
     ["inputs", "configurations"], "all fields, levels and combinations of the four criteria, including limits equal or close to the value of an eddy",
     "The tests use the default criteria.", [T],
     [("criteria", T + " _detect_one_level")],
     PBT + "metamorphic: lenient detection filtered by the criteria", "")
prop("C11", "Contour tracing returns exactly the level lines of the gridded field",
     "The contour lines of a grid at a level are the complete set of lines that cross each grid edge whose ends lie on different sides of the level exactly once, at the linearly interpolated place, joined within cells, closed unless they end on the boundary.",
     ["inputs"], "all grids (also curvilinear) of at least 2x2 points, values with ties, saddles and plateaus, and levels",
     "The tests trace smooth fields, without saddles or ties at the level.", [C, G],
     [("tracer", C + " Cntr_trace"), ("call", G + " extract_contours")],
     PBT + "differential against contourpy's mpl2005 and against the edge by edge definition", "two independent references")
prop("C12", "The contour extension is memory safe and rejects bad input cleanly",
     "No sequence of creating, initialising again, tracing, masking and deleting contour tracers with any arrays (any shape, type, layout, missing or infinite values, mask, chunk size) reads or writes out of bounds, overflows, crashes or leaks, also when memory runs out; inputs that do not fit and tracers without a grid raise TypeError or ValueError. "
     "A traced result, and the codes of the grid points after it, depend only on the arrays and levels given.",
     ["inputs", "histories"], "all histories of calls of the extension and all arrays up to 20x20 points",
     "The tests use well formed float arrays of one shape.", [C],
     [("construction and checks of the arguments", C + " Cntr_init"), ("tracing", C + " Cntr_trace, data_init"), ("output", C + " build_cntr_list_v2")],
     "fuzzing under AddressSanitizer and UBSan, differential with the plain build", "errors that the sanitizers see")
prop("C13", "Filled regions and masks of the tracer partition the grid",
     "The polygons between two levels cover exactly the region of the grid where the interpolated field lies between them: they equal those of the reference tracer, and their areas add up over consecutive levels to that of the (unmasked) grid. "
     "Masked points remove their cells and nothing else, for any chunk size.",
     ["inputs", "configurations"], "all grids, pairs of levels, masks and chunk sizes",
     "The tests trace one level without a mask.", [C],
     [("two level tracing", C + " zone_crosser, edge_walker, slit_cutter"), ("mask", C + " mask_zones")],
     PBT + "differential against contourpy's mpl2005, additivity of areas", "")
prop("C14", "Areas of contours are their areas on the sphere",
     "The area computed for a closed contour in degrees of longitude and latitude equals the area that it encloses on a sphere of 6378.137 km, whatever its place (also across 0 or 180 degrees), shape, orientation, first vertex and whole turns of longitude, up to the error of its sampling.",
     ["inputs"], "all closed polygons of at least 24 vertices up to 15 degrees in size, below 80 degrees of latitude",
     "No test computes an area.", [G],
     [("area on the sphere", G + " area_latlon_polygon")],
     PBT + "differential against the exact line integral, additivity", "tolerance decreasing with the square of the number of vertices")
prop("C15", "Ellipse fits recover the ellipse",
     "For points on an ellipse the fit returns its centre, semi axes (the major first) and tilt, for noisy points those of the least squares conic, for any place, size, tilt, spacing, direction and start; the fitted outline lies on that ellipse. "
     "The eccentricity is sqrt(1 - (b/a)^2).",
     ["inputs"], "all ellipses with axis ratio 0.3 to 1, all samplings and noise within 12 percent",
     "One test checks the tilt of two ellipses of one angle.", [G],
     [("fit", G + " fit_ellipse"), ("eccentricity", G + " eccentricity")],
     PBT + "ground truth and an independent least squares fit", "")
prop("C16", "Curve similarity is the discrete Frechet distance over the curve lengths",
     "The distance of two curves is their discrete Frechet distance by its definition, and ends without an error for curves of any length (thinned only where both have more than 300 points); the similarity is one minus that distance over the geometric mean of the lengths of the curves divided by sqrt(2), at least zero and rounded to four decimals. "
     "Both are symmetric, and zero distance (similarity one) holds for equal curves.",
     ["inputs"], "all pairs of planar curves, from one point to thousands",
     "The tests never call it directly, and their contours are short.", [G],
     [("distance", G + " frdist"), ("similarity", G + " compute_similarity")],
     PBT + "differential against the definition (couplings) and an independent dynamic program", "curves where both have more than 300 points are checked up to thinning")
prop("C17", "Gaussian surface and fit recover the eddy",
     "The Gaussian surface has the given centre, deviations along its rotated principal axes and tilt. "
     "Fitting it to a sampled Gaussian or to the core of one, starting from a guess like the ellipse of its contour, recovers the surface, within the documented bounds of the parameters, for any amplitude, sign and place.",
     ["inputs"], "all Gaussians resolved by the grid, and first guesses as an ellipse of a contour gives",
     "Two tests fit one Gaussian each.", [G],
     [("surface", G + " gaussian"), ("fit", G + " Fit_Surface"), ("bounds", G + " Fit_Surface.construct_bounds")],
     PBT + "ground truth of the generated Gaussians", "")
prop("C18", "Eddy sizes are limited by the documented Rossby radius at their latitude",
     "The size limit of an eddy is the chosen factor times 200 exp(-lat^2/2 0.15^2) + 60 exp(-lat^2/40 0.15^2) km at the latitude of the centre of its contour, symmetric in latitude and decreasing towards the poles. "
     "A contour with a larger radius is discarded for its size, and one with a smaller radius never is.",
     ["inputs", "configurations"], "all latitudes, factors and sizes",
     "One test has eddies above the limit.", [P, T],
     [("Rossby radius", P + " approx_RD_lat"), ("size criterion", T + " _detect_one_level")],
     PBT + "documented formula, eddies of sizes around the limit", "")
prop("C19", "Tracking in time neither loses, invents, duplicates nor changes an eddy",
     "The tracks contain, at each time of the tracked window, exactly the eddies of the detection of that snapshot, each once, with unchanged properties, and nothing at other times, also when snapshots have no eddies or the window is empty. "
     "Identifiers run from 0 without gaps, and no identifier has two eddies at one time.",
     ["histories", "inputs", "configurations"], "all histories of snapshots with any number of eddies that move, vanish, return, meet and split, all windows and gap lengths",
     TRACK, [T, U],
     [("loop over time", T + " time_tracking"), ("merge of a snapshot", U + " track_online, _merge_reindex_eddies"), ("new identifiers", U + " _update_counter, _rename_eddies_in_time")],
     PBT + "stateful histories, invariants over the whole history", "histories of up to 9 snapshots with a stand-in detection, and real fields")
prop("C20", "An eddy keeps its identifier while it can be followed, and no longer",
     "An eddy takes the identifier of the nearest eddy, by great circle distance of the extrema at its last known place, among those last seen in the previous snapshot or missing for at most the chosen number of snapshots, if that is closer than its own radius; if several eddies would take it, the closest does. "
     "All others get new identifiers, larger than those of older tracks.",
     ["histories", "inputs", "configurations"], "all histories of snapshots (drift, gaps, crossings, births, dense groups) anywhere on the globe, and all gap lengths",
     TRACK + " No eddy vanishes, meets another or jumps.", [T, U],
     [("nearest previous eddy", U + " _detect_nearest"), ("tracks that are still open", U + " unlink_eddies_in_previous_times"), ("identifiers", U + " _rename_eddies_in_time")],
     PBT + "stateful model: reference linking of generated histories, and moving Gaussians with known paths", "ties within 1e-7 km are not judged")
prop("C21", "Tracks up to a time depend only on the snapshots up to that time",
     "Adding, removing or changing later snapshots never changes an identifier or an eddy of an earlier time. "
     "Tracking from a later start equals tracking the remaining snapshots on their own, and allowing longer gaps than there are snapshots changes nothing.",
     ["histories", "inputs", "configurations"], "all histories, all cuts, starts and replacements of the future",
     TRACK, [T, U],
     [("loop over time", T + " time_tracking"), ("renumbering of identifiers", U + " _merge_reindex_eddies"), ("tracks that are still open", U + " unlink_eddies_in_previous_times")],
     PBT + "metamorphic relations between trackings of related histories", "histories of up to 8 snapshots")
prop("C22", "Offline tracking stores every snapshot, and reading the files gives it back",
     "Tracking without linking writes, for each snapshot of the window with eddies and for no other, one file named after its time in the chosen directory and format, from which reading (csv or json) gives back exactly the eddies of that snapshot with all their properties. "
     "It leaves all other files alone, replaces files of an earlier run, and passes the options for the format on.",
     ["histories", "inputs", "configurations"], "all histories of snapshots, windows, formats and previous contents of the directory",
     "No test stores anything.", [T, U],
     [("loop over time", T + " time_tracking"), ("files", U + " store_snapshot")],
     PBT + "round trip through the files", "csv bit for bit, json to its 10 decimals; hd5 needs a package that is not installed")
prop("C23", "Generated fields are exactly the sum of the eddies that the generator lists",
     "A generated field has one layer per time step with the margin on every side, and is the sum of the Gaussians with the listed amplitude, radii, angle and place; reconstructing gives the same field without the margin; the same random seed gives the same field. "
     "Eddies that do not interact are at least five radii apart wherever there is room, generation ends also where there is none, and single or moving kernels have the given width at half maximum and centre.",
     ["inputs", "configurations"], "all numbers and sizes of eddies, grids (also oblong), coordinates, steps, margins, modes and seeds",
     "The tests only count eddies detected in a few generated square fields.", [FG, GF],
     [("assembly", FG + " assemble_field, reconstruct_field, pass_args"), ("separation", FG + " checkposition"), ("kernels", GF)],
     PBT + "differential against an independent sum of Gaussians", "interacting eddies: exact for one eddy, bounded for several")
prop("C24", "Eddy records hold exactly what was stored, numbered in order, until reset",
     "Storing or discarding eddies adds to the respective table one record per eddy with all its properties, numbered from 0 in order of arrival, and leaves earlier records unchanged; leaving clears both tables and numbers. "
     "A selection of properties returns exactly those asked for, and one that does not exist raises a ValueError.",
     ["histories", "inputs"], "all sequences of storing, discarding, selecting and leaving, and all values of the properties",
     "The tests never use a record directly.", [E, D],
     [("conversion", E + " Eddy.to_dict, to_table"), ("tables and numbers", D + " eddy_identifier")],
     PBT + "stateful model of the two tables", "")

prop("C25", "The plots show every eddy and every discarded contour, and change nothing",
     "The plot of a level shows the tracked field twice, with the contour and the centre of each eddy of the given table on the left, and on the right the centre of each discarded contour in the colour that the legend gives to its reason. "
     "The plot of several levels shows the tracked field and the contour of each eddy, in one colour per level, which is the colour of that level in the legend (shown for up to four levels). "
     "Both work with any table of the detection, also an empty one or a selection of its eddies, with or without discarded contours, and modify neither the tables nor the field.",
     ["inputs", "configurations"], "all fields, levels and criteria, tables with any number of eddies and discarded contours",
     "No test draws a plot.", [T],
     [("several levels", T + " plot_eddy_detection_multilevel"), ("one level", T + " plot_eddy_detection_in_level")],
     PBT + "lines and markers read back from the figure against the tables", "colours of the legend are the reference; sizes and colour maps are not judged")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P_:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, tech, note in P_:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python -B harness/run.py %s" % i,
                       "thorough_cmd": "/opt/venv/bin/python -B harness/run.py %s --thorough" % i,
                       "technique": tech, "level": "exploration",
                       "level_note": (note + "; " if note else "") + "random search, no exhaustive coverage"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B harness/bootstrap.py", "checks": checks, "not_applicable": []}, f, indent=1)


if __name__ == "__main__":
    main()
