"""Writes /verif/properties.jsonl (kept in one place so that ids stay in step)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
CX, PY = "src/cxx/", "src/python/pycold/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


p("C01", "COLD segments are chronological, disjoint and well-formed",
  "For every accepted pixel time series, the change records of COLD are in time order and do not overlap; each record's start, end and break dates are dates of usable observations of that series with start <= end < break <= next start. A record carries a break date exactly when its change probability is positive (100 for a confirmed change; only the last record may have less), its observation count does not exceed the usable observations it spans, and every coefficient, RMSE and magnitude is a finite number (RMSE non-negative). The position id is echoed in every record.",
  ["inputs", "configurations"],
  "All date/band/QA series (dense, sparse, gappy, noisy, with any number of changes) and all accepted t_cg, conse, pos, gap_days, b_c2 values.",
  "test_cold_detect runs one CSV and checks one break date; ordering, finiteness and closure of records must hold for every series.",
  [CX + "cold.c", PY + "colds.py", PY + "_colds_cython.pyx"],
  [("standard COLD procedure: initialisation, monitoring, end-of-series handling", CX + "cold.c stand_procedure"),
   ("record array trimmed to the number of fitted curves", PY + "_colds_cython.pyx _cold_detect")],
  ["pycold.cold_detect return value"])

p("C02", "COLD segment models reproduce the pixel's seasonal signal and noise level",
  "When a pixel follows a smooth seasonal-plus-trend signal with moderate noise (possibly with abrupt changes between stable periods), each sufficiently long reported segment's coefficients, evaluated with the documented harmonic formula (intercept + slope*date/10000 + annual cos/sin and harmonics), predict every band of the underlying signal within the noise, its RMSE per band estimates the noise level, and its change magnitude per band estimates the signal step at the break. Thermal is reported in the scaled unit 10*T-27320.",
  ["inputs"],
  "All signals inside the model class, noise levels, observation cadences, trends and calendar positions.",
  "Tests never look at coefficients, RMSE or magnitude; whether the fit is right must hold for every signal.",
  [CX + "cold.c", CX + "misc.c", CX + "GLMnet.f", PY + "utils.py"],
  [("lasso harmonic fit per band and RMSE", CX + "misc.c auto_ts_fit"),
   ("prediction of a fitted model", CX + "misc.c auto_ts_predict; " + PY + "utils.py predict_ref")],
  ["coefs, rmse, magnitude of pycold.cold_detect records"])

p("C03", "COLD reports exactly the segments and breaks the published change rule defines",
  "For every series, COLD's records are those of the documented algorithm: a segment starts on a stable window of at least a year and twelve usable observations, its model is refitted as it grows, and it is closed by a break exactly when the next `conse` usable observations all exceed the change threshold t_cg on the RMSE-normalised squared difference of the five optical bands (green to SWIR2) and point in a common direction, otherwise outliers are dropped and monitoring goes on. Segment start, end and break dates, observation counts, quality category, change probability, coefficients, RMSE and magnitudes agree with an independent implementation of that rule.",
  ["inputs", "configurations"],
  "All series with any pattern of seasonality, abrupt and gradual change, outliers, gaps and cadence, and all accepted t_cg, conse, gap_days, b_c2.",
  "The test suite has one series and one expected break date; the rule quantifies over every series and parameter.",
  [CX + "cold.c", CX + "misc.c", CX + "multirobust.c", CX + "utilities.c", CX + "GLMnet.f"],
  [("initialisation window, stability test and backward extension", CX + "cold.c stand_procedure"),
   ("robust screening of clouds and shadows missed by the mask", CX + "misc.c auto_mask"),
   ("temporally adjusted RMSE and consecutive change test", CX + "cold.c stand_procedure monitoring part")],
  ["pycold.cold_detect return value"])

p("C04", "Observations flagged or out of range never influence the result",
  "The result of COLD and SCCD depends only on usable observations: changing the band values of observations flagged cloud, shadow or fill, appending or inserting such observations, or changing an observation that repeats an earlier date, leaves every segment date, coefficient, RMSE and magnitude unchanged (as long as the share of clear observations stays enough for the standard procedure). An observation with a band outside the valid physical range is treated exactly as if it were absent, and with the Collection-2 option an unavailable (zero) thermal value does not by itself exclude an observation.",
  ["inputs"],
  "All series, and all perturbations of the unusable observations (values, number, position) of cold_detect, sccd_detect and obcold_reconstruct.",
  "No test perturbs masked observations; independence is a relation between pairs of inputs.",
  [CX + "cold.c", CX + "misc.c", CX + "s_ccd.c"],
  [("valid range and QA preprocessing", CX + "cold.c preprocessing; " + CX + "s_ccd.c"),
   ("selection of clear observations and removal of duplicate dates", CX + "cold.c stand_procedure")],
  ["pycold.cold_detect / sccd_detect / obcold_reconstruct return values"])

p("C05", "Detection is a deterministic pure function of its arguments",
  "Calling cold_detect, obcold_reconstruct, sccd_detect or sccd_update again with equal arguments gives bit-identical results, whatever was computed in between, whichever process runs it and whatever bytes freshly allocated memory holds; every field of every returned record is determined by the inputs. The caller's arrays are never modified, and integer width, byte layout or memory order of the inputs make no difference.",
  ["inputs", "histories"],
  "All inputs and all sequences of earlier calls in the same process; all heap/stack contents at call time.",
  "Tests call each function once on fresh memory; hidden state and uninitialised reads only show across calls and memory states.",
  [CX + "cold.c", CX + "s_ccd.c", CX + "misc.c", CX + "utilities.c", PY + "_colds_cython.pyx", PY + "colds.py"],
  [("contiguous int64 copies of the inputs", PY + "colds.py _validate_data"),
   ("working buffers allocated per call", CX + "cold.c cold; " + CX + "s_ccd.c sccd")],
  ["return values and argument arrays of the four detection functions"])

p("C06", "Change-magnitude outputs summarise the strongest change per interval",
  "With change-magnitude output on, COLD returns the same records as with it off plus two arrays of the requested length; slot k describes only dates in [start + k*interval, start + (k+1)*interval), holding the largest scaled change magnitude (weighted by angle agreement and rounded at 100 per unit) among the tested windows that begin there and, in the date array, the matching date counted from the Landsat 4 launch day. Slots where nothing was tested hold the no-data value -9999 in both arrays.",
  ["inputs", "configurations"],
  "All series, starting dates up to the first observation, interval lengths and array lengths covering the series.",
  "Only one shape assertion in the tests touches these arrays.",
  [CX + "cold.c", PY + "_colds_cython.pyx"],
  [("recording the maximum of probability-weighted minimum magnitude per interval", CX + "cold.c stand_procedure / cold")],
  ["second and third return value of pycold.cold_detect(b_output_cm=True)"])

p("C07", "Any series is handled or rejected cleanly, without memory corruption",
  "Whatever the lengths, values, order of dates, QA codes and parameter values passed, cold_detect, obcold_reconstruct, sccd_detect, sccd_update and sccd_identify either return a well-formed result or raise a Python exception: they never crash, hang, read or write outside their buffers, or leak an unbounded amount of memory. Inconsistent lengths, wrong dimensions, wrongly ordered dates (COLD) and out-of-range parameters are rejected with an exception rather than processed.",
  ["inputs", "configurations", "histories"],
  "All arrays (including empty, constant, extreme, unsorted, all-cloud, all-snow) and all parameter values, and sequences of calls.",
  "Tests pass well-behaved series without sanitizers; memory safety is a statement over all inputs.",
  [CX + "cold.c", CX + "s_ccd.c", CX + "KFAS.c", CX + "misc.c", CX + "2d_array.c", CX + "utilities.c", PY + "_param_validation.py", PY + "colds.py"],
  [("parameter and shape validation", PY + "colds.py _validate_params, _validate_data"),
   ("buffer allocation sized by the number of observations", CX + "cold.c; " + CX + "s_ccd.c")],
  ["process exit status, sanitizer reports, exceptions"])

p("C08", "Pixels with too few clear observations get the documented fallback segment",
  "When fewer than 24 observations are clear, COLD returns at most one segment and no break: category 54 fitted on clear plus snow observations when more than three quarters of the valid observations are snow, category 44 fitted on the remaining usable observations otherwise, and an empty result if fewer than twelve observations are left. That segment's dates are those of the first and last observation used, and its coefficients and RMSE in every one of the seven bands describe exactly the observations of that band.",
  ["inputs"],
  "All series with fewer than 24 clear observations: every mix of snow, water, cloud and clear.",
  "No test exercises the fallback path at all.",
  [CX + "cold.c"],
  [("choice of procedure by clear count and snow percentage", CX + "cold.c cold"),
   ("permanent-snow and insufficient-clear procedures", CX + "cold.c inefficientobs_procedure")],
  ["pycold.cold_detect return value (category, coefs, rmse)"])

p("C09", "Blue, thermal and calendar origin do not decide when change is found",
  "Segment start, end and break dates and change probabilities are the same whatever the valid values of the blue and thermal bands are; those bands only affect their own coefficients, RMSE and magnitude. Shifting every date by the same whole number of four-year cycles shifts every reported date by that amount and leaves counts, RMSE and magnitudes unchanged, and the position id has no effect other than being echoed.",
  ["inputs"],
  "All series, all valid replacements of blue/thermal values, all 1461-day multiples, all positive position ids.",
  "A metamorphic relation between runs; tests make single runs.",
  [CX + "cold.c", CX + "misc.c", CX + "const.h"],
  [("detection bands exclude blue and thermal", CX + "cold.c stand_procedure over the five detection bands"),
   ("screening on green and SWIR1 only", CX + "misc.c auto_mask")],
  ["pycold.cold_detect records for pairs of inputs"])

p("C10", "Reconstruction honours exactly the given break dates",
  "Given break dates, obcold_reconstruct splits the pixel's usable observations at those dates that follow the previous used one by at least a year, each moved to the nearest usable observation: each returned segment covers the observations between two consecutive used breaks, its break date is that break (0 for the last segment), and stretches whose observations are too few are left out. Each segment's coefficients and RMSE are the model fit of its own observations (screened for outliers when closed by a break) in every band, and when no date is given (zeros only) a single segment spanning the whole series results.",
  ["inputs", "histories"],
  "All series and all sets of break dates, including dates not present in the series, before the first, after the last and close together.",
  "test_obcold_reconstruct uses one series with one list of breaks and checks one date.",
  [CX + "cold.c", PY + "colds.py"],
  [("per-break reconstruction", CX + "cold.c obcold_reconstruction_procedure"), ("locating break dates", CX + "misc.c find_index_clrx")],
  ["pycold.obcold_reconstruct return value"])

p("C11", "SCCD results follow its rule, in time order and consistent with their mode",
  "For every series, SCCD's historical records, mode, near-real-time model, queue, minimum RMSE and (on request) pinpoints are those of the documented algorithm. Records are in time order with start < break <= next start, on dates of usable observations, finite, with a non-negative RMSE and no more observations than are usable in their span. Exactly one state is reported and its parts agree with it: a monitoring pixel carries one model that stores the pixel's latest usable observations and no queue; a queue pixel carries only its pending usable observations in order, up to the newest; snow pixels (clear share too small) have their own model or queue and no records. Requesting pinpoints changes nothing else when the anomaly threshold is not above the change threshold, and each pinpoint starts on a usable observation. Series shorter than a year are refused.",
  ["inputs", "configurations"],
  "All series (clear, cloudy, snow, gappy, short) and accepted t_cg, conse, gate_tcg, b_c2, b_pinpoint, b_monitor_init values.",
  "The SCCD tests run two or three CSVs (and are not in the stable set); invariants range over all series.",
  [CX + "s_ccd.c", CX + "KFAS.c", PY + "_colds_cython.pyx", PY + "common.py"],
  [("SCCD standard procedure and mode selection", CX + "s_ccd.c sccd_standard / sccd"),
   ("Kalman filter", CX + "KFAS.c; " + CX + "s_ccd.c KF_ts_filter_regular"),
   ("output packing", PY + "_colds_cython.pyx _sccd_detect")],
  ["pycold.sccd_detect return value"])

p("C12", "Online SCCD updates continue detection the same way for any batching",
  "Each sccd_update of a pack with new observations gives the records, mode, model and queue that the documented algorithm reaches from that pack. While a pixel stays in monitoring, feeding later observations in one call or in any split into consecutive batches yields the same state (up to rounding), and the first newly confirmed break and its record are the same however the updates are batched. Historical records already reported are never altered by an update, only appended to; observations that are not newer than those already absorbed, or not usable, change nothing; an empty batch is refused; and the pack and arrays passed in are left as they were.",
  ["histories", "inputs"],
  "All initial series, all continuations, and all ways of splitting the continuation into update calls (with stale, overlapping, unusable-only and empty batches, changes of thresholds, identification and storage in between).",
  "Tests perform one update; the property is over every schedule of updates.",
  [CX + "s_ccd.c", CX + "KFAS.c", PY + "_colds_cython.pyx", PY + "colds.py"],
  [("state carried in nrt_model / nrt_queue / mode", CX + "s_ccd.c sccd with mode input"),
   ("Kalman state serialisation", CX + "KFAS.c; " + PY + "_colds_cython.pyx _sccd_update")],
  ["SccdOutput after each pycold.sccd_update"])

p("C13", "SCCD packs survive storage and are never changed behind the caller's back",
  "Stripping a pack of its indices and re-indexing it, or pickling it to disk and loading it, gives back a pack equal in every field and value, and continuing detection from the restored pack gives the same result as from the original. sccd_update and the pack utilities never modify the pack passed in. A list without exactly the six documented items is rejected.",
  ["inputs", "histories"],
  "All packs produced by detect/update in every mode, and any number of save/restore steps between updates.",
  "Tests never round-trip a pack.",
  [PY + "utils.py", PY + "common.py", PY + "_colds_cython.pyx"],
  [("unindex_sccdpack / index_sccdpack", PY + "utils.py"), ("structured dtypes", PY + "common.py")],
  ["pycold.utils.index_sccdpack, unindex_sccdpack, pycold.sccd_update"])

p("C14", "Near-real-time change identification reports only confirmed recent changes",
  "sccd_identify returns the pair (pack, date). The date is 0 for snow pixels, for pixels without a model, for pixels whose change was already reported (mode 11 or 12), and whenever the number of latest consecutive anomalies is below dist_conse, their change magnitude is not above t_cg_scale100, their angle is not below t_angle_scale100, or their median difference to the model says greening (red and SWIR1 below, NIR above the single-band threshold). Otherwise it is the date of the first of those pending anomalies, and, with transform_mode, a monitoring pixel (mode 1) becomes mode 11; everything else in the pack is unchanged, and the pack passed in is never modified. The answer does not depend on stored history.",
  ["inputs", "histories"],
  "All packs reachable by detect/update and all accepted threshold combinations.",
  "No stable test calls it.",
  [PY + "colds.py", PY + "utils.py"],
  [("identification rule", PY + "colds.py sccd_identify"), ("change magnitude of the pending window", PY + "utils.py calculate_sccd_cm")],
  ["pycold.sccd_identify return value"])

p("C15", "Pixel, block and tile coordinates are one consistent bijection",
  "For every tile layout whose block counts divide its rows and columns, the mapping from 1-based pixel position to (block, row in block, column in block, index in block) and back to (row, column in tile) is a bijection: every pixel belongs to exactly one block, the conversions agree with each other and with row-major numbering, and block ids 1..n enumerate blocks row by row. The row/column index image and rasters saved with a reference image keep its width, height and georeference. Date helpers (ordinal, matlab ordinal, ISO text, day-of-year text with zero padding) invert each other.",
  ["inputs", "configurations"],
  "All tile sizes, block grids that divide them (square or not), positions, and dates of the satellite era.",
  "Only exercised through one 5000-wide tile example at best; off-by-one at block edges needs every edge.",
  [PY + "utils.py", PY + "common.py"],
  [("get_block_x/y, get_row_index, get_col_index, get_rowcol_intile, get_id_inblock", PY + "utils.py")],
  ["the helper functions' return values"])

p("C16", "Assembling blocks into a tile places every pixel exactly once",
  "For every block grid, assembling per-block results into tile maps puts the value computed for each pixel at that pixel's row and column and nowhere else, for change-magnitude maps (one map per interval, named by its date) as well as for feature and classification arrays. Pixels of a block whose result is missing are marked no-data instead of receiving another block's values, and temporary block files are removed only when asked.",
  ["configurations", "fault_sequences"],
  "All grids (square or not), interval counts, value ranges, and every subset of missing block files.",
  "test_ob_analyst uses a single square layout; non-square grids and missing blocks are never run.",
  [PY + "utils.py", PY + "ob_analyst.py", PY + "pyclassifier.py"],
  [("assemble_cmmaps, assemble_array", PY + "utils.py")],
  ["files and arrays produced by assemble_cmmaps / assemble_array"])

p("C17", "Block stacks are read in date order with every value where it belongs",
  "Reading a block folder returns exactly one image per stack file in ascending acquisition date with dates decoded from the file names, whatever order the directory lists them in and whatever unrelated files lie beside them (images of the same day each appear once), and pixel i / band b of each image keeps its value. The tile reader selects exactly the images inside the requested date range, yields nothing when there are none, and a pixel's series handed to detection is that pixel's. Tables of ordinal dates read back as they were written.",
  ["inputs", "configurations"],
  "All sets of image names (years, leap days, sensors), directory orders, block sizes, band counts and date ranges.",
  "Tests read one prepared folder.",
  [PY + "utils.py", PY + "imagetool/tile_processing.py"],
  [("read_blockdata", PY + "utils.py"), ("get_stack_date", PY + "imagetool/tile_processing.py")],
  ["arrays returned by read_blockdata / get_stack_date"])

p("C18", "Object segmentation grows from significant seeds and yields coherent objects",
  "Objects are grown from seeds, pixels whose smoothed change magnitude exceeds the peak threshold taken from the highest down: a pixel joins a seed's object when it is 8-connected to it, in no earlier object, has a smoothed magnitude within the floodfill ratio of the seed's and a change date within the allowed interval of the seed's. Gaps of the current map are filled from the previous one (magnitude only where significant). The patch map numbers the 8-connected groups of object pixels, the object table holds each object's mean smoothed magnitude, and pixels outside objects and no-data pixels never belong to one. The superpixel alternatives partition the significant pixels in the same format.",
  ["inputs"],
  "All pairs of change-magnitude/date maps (with a previous map or without), sizes, no-data patterns, peak thresholds, floodfill ratios and bandwidths.",
  "Tests compare one prepared map.",
  [PY + "ob_analyst.py"],
  [("segmentation, segmentation_floodfill", PY + "ob_analyst.py")],
  ["arrays returned by the segmentation functions"])

p("C19", "Object analysis keeps a change exactly when the land-cover rule says so",
  "For every object the analysis keeps its pixels' change exactly when the object's mean change magnitude, scaled by min(2, 0.95 + slope*log10(patch size)) with the slope of its class, exceeds the threshold of its land-cover class, the most frequent class of its pixels in the map of the year before the change (or the default threshold where no class is known); otherwise all of its pixels are cleared. Pixels outside every object stay no-change, all pixels of one object get the same decision, the decision depends only on that object, and kept pixels carry their own change date. The first snapshot reports no change.",
  ["inputs"],
  "All object maps, magnitude and date maps, land-cover maps, class thresholds and snapshot years.",
  "One prepared example in the tests.",
  [PY + "ob_analyst.py", PY + "constants.yaml"],
  [("object_analysis", PY + "ob_analyst.py"), ("per-class thresholds and size slopes", PY + "constants.yaml OBCOLD")],
  ["map returned by object_analysis"])

p("C20", "Object results saved per block are complete and reload pixel by pixel",
  "Saving the object-based change maps of all snapshots by block and reading them back gives each pixel exactly its own non-empty change dates, ordered, for every block of the grid, and the reconstruction of a pixel uses those dates and that pixel's own observations, labelled with its tile-wide position. A pixel without observations gives no record; a block without records leaves no file.",
  ["configurations", "histories"],
  "All grids, numbers of years and change-date patterns; any order in which yearly maps are produced.",
  "Only one square workflow example is tested.",
  [PY + "ob_analyst.py"],
  [("ObjectAnalystHPC.obia_execute / get_allobs / reconstruct", PY + "ob_analyst.py")],
  ["per-block OBIA files and reconstructed records"])

p("C21", "Classification features describe the model valid at the anchor date",
  "For every pixel, the features extracted for a date come from the segment in force on that date under the documented rule (for a date in a gap between segments, the documented neighbour), in the documented order of intercept, harmonics and RMSE per band, with the intercept evaluated at that date. Pixels without any model get no-data in all features, and each pixel's features are independent of its neighbours.",
  ["inputs"],
  "All record sets per pixel (0..n segments, gaps, single), anchor dates before, inside, between and after segments, band and feature counts.",
  "Tests check only shapes on one block.",
  [PY + "pyclassifier.py", PY + "ob_analyst.py"],
  [("extract_features, get_features", PY + "pyclassifier.py, " + PY + "ob_analyst.py")],
  ["feature arrays"])

p("C22", "Tile classification is independent of how the tile is partitioned",
  "Running feature extraction, training and classification over a tile gives every pixel and year the label the trained model predicts for that pixel's own features (255 without any), and a model trained on classes its features separate reproduces them. The block grid, the order in which workers run or come to a step, and re-running a finished or interrupted step do not change any label. Outputs cover each pixel exactly once, in the requested folder. Training takes of every labelled class its share of the samples, between the minimum and maximum and never more than there are.",
  ["configurations", "schedules"],
  "All block grids, worker counts and worker orders, and re-runs.",
  "test_step1_4 runs one worker on one grid.",
  [PY + "pyclassifier.py"],
  [("PyClassifierHPC.step1..step4, classification_block", PY + "pyclassifier.py")],
  ["yearly classification maps"])

p("C23", "Stacking keeps each pixel's scaled bands and QA class in the right place",
  "Preparing an image stack (Landsat ARD Collection 1 and 2, Collection 2 scenes cropped to a shape, HLS) puts each source pixel's bands, in the order blue, green, red, near infrared, shortwave infrared 1, 2, thermal (zero for HLS) and scaled to the documented reflectance*10000/Kelvin*10 units, and its QA class (fill > cloud or dilated/adjacent cloud > shadow > snow > water > clear precedence of the documented bit flags) at the same pixel of its block, for every block grid and every number and order of workers. Blocks without a clear, water or snow pixel are not saved; images whose clear share is under the threshold or that lie outside the date range are skipped entirely; with the single-path option, pixels assigned to another path are fill. A scene with a missing or unreadable part (archive, band, QA, metadata) is skipped and leaves the other scenes untouched, whatever an interrupted earlier run left in the scratch folders; a preparation in which a worker died gives the same stack when started again. Options left out of the command line mean the documented defaults (ARD Collection 1, partitioned, single path, no date bounds, no clear threshold, one worker).",
  ["inputs", "configurations"],
  "All QA bit patterns (exhaustively 16 bits), band values, sensors and block grids.",
  "prepare_ard has no test in the stable set.",
  [PY + "imagetool/prepare_ard.py"],
  [("qabitval_array*, single_image_stacking*", PY + "imagetool/prepare_ard.py")],
  ["per-block .npy stacks"])

p("C24", "Parameters outside their documented domain are rejected, inside accepted",
  "Every public detection function accepts each scalar parameter exactly on its documented domain (type and open/closed bounds) and raises an error naming the parameter otherwise, before doing any work. All arrays of one call must be one-dimensional and equally long, or an error is raised. The tile programs refuse, before writing anything, a grid whose blocks do not cover the tile exactly, a missing stack, and, for the classifier, a tile size that is not a positive whole number, a missing input and an unknown feature.",
  ["inputs", "configurations"],
  "All parameter values (ints, floats, numpy scalars, NaN, infinities, bools, strings, None) at, near and beyond every bound.",
  "No test passes an invalid parameter.",
  [PY + "_param_validation.py", PY + "colds.py"],
  [("constraint table and validator", PY + "colds.py _parameter_constraints; " + PY + "_param_validation.py")],
  ["exceptions of the public functions"])

p("C25", "Exported yearly change maps encode exactly the records of each pixel",
  "Exported maps place at each pixel the break of the right year encoded as disturbance category*1000 + day of year (1 disturbance, 2 regrowth, 3 afforestation, 4 an OBCOLD break that reverses the previous one's direction), the years of the recent and first disturbance, and (COLD, OBCOLD) the coefficients of the segment in force, no-data elsewhere, for every tile shape and block grid, and for COLD, OBCOLD and SCCD record files alike. A pixel's map values depend on its own records only. Options left out of the command line mean the documented defaults (COLD, 1982 to 2020, all seven bands, no coefficients).",
  ["inputs", "configurations"],
  "All record sets, tile shapes, block grids and year ranges.",
  "The exporter has no test.",
  [PY + "imagetool/export_change_map.py"],
  [("getcategory_cold / getcategory_sccd, main", PY + "imagetool/export_change_map.py")],
  ["exported GeoTIFFs"])

p("C26", "Tile processing gives each pixel its own result under any worker schedule",
  "Processing a tile writes for every block one record file in which each pixel's records equal those of running the detection function alone on that pixel's stack, labelled with that pixel's tile-wide position; the change-magnitude maps of OBCOLD likewise hold each pixel's own values. The number of workers, their order, a crash between blocks followed by a restart, and re-running over finished blocks do not change any of these files. Options left out of the command line mean the documented defaults (one worker, no date bounds, Collection 1, no seed map).",
  ["schedules", "crash_points", "configurations"],
  "All grids, worker counts and orders, crash points between (and inside) blocks, methods COLD/OBCOLD/SCCD and date ranges.",
  "No stable test runs the tile processor.",
  [PY + "imagetool/tile_processing.py"],
  [("block loop, finished-block detection and per-pixel call", PY + "imagetool/tile_processing.py")],
  ["record files and change-magnitude maps in the result folder"])

p("C27", "A processing step counts as finished exactly when all its parts are done",
  "Each finished-test of the tile workflow (per-pixel detection, assembly of the change-magnitude maps, object analysis, feature generation, classification maps, image preparation) answers yes exactly when every part of the step (block, snapshot, map of either kind, year, worker) is there, whatever other files lie beside them and in whatever order the parts were done; so no later step starts on incomplete results, and a complete one is never waited for. The processing report states the run's own parameters, times and thresholds.",
  ["configurations", "histories", "crash_points"],
  "All grids, numbers of snapshots and workers, date sequences across years, sets of missing parts and orders of completion.",
  "No stable test calls these functions.",
  [PY + "imagetool/tile_processing.py", PY + "ob_analyst.py", PY + "pyclassifier.py", PY + "imagetool/prepare_ard.py"],
  [("tests for completion", PY + "imagetool/tile_processing.py is_finished_*; ob_analyst.py is_finished_object_analysis; pyclassifier.py is_finished_*; prepare_ard.py checkfinished_*"),
   ("tile report", PY + "imagetool/tile_processing.py tileprocessing_report")],
  ["answers of the finished-tests; report file"])

p("C28", "An argument left out or given by position means what is documented",
  "Calling a detection function (cold_detect, obcold_reconstruct, sccd_detect, sccd_update, sccd_identify) with any of its optional arguments left out gives exactly the result of passing the documented default: change threshold 15.0863, position 1, six consecutive observations, no change-magnitude output (and, where it is asked for alone, one value every 60 days from the first date to the last), Collection 1 rules, gap of 365.25 days; S-CCD gate and predictability thresholds 9.236, no pinpoint output; identification with six consecutive observations, magnitude above 1508.6, greening threshold -200, angle under 4500 and the mode change on. Arguments given by position, in the documented order, mean the same as by keyword, in any mixture.",
  ["inputs", "configurations"],
  "All series and packs, all subsets of arguments left out, all splits into positional and keyword arguments.",
  "The tests call with defaults on a handful of series, on which a slightly different default makes no difference, and never compare with explicit arguments.",
  [PY + "colds.py", PY + "_colds_cython.pyx"],
  [("signatures and the order in which they are handed to the compiled functions", PY + "colds.py cold_detect, obcold_reconstruct, sccd_detect, sccd_update, sccd_identify")],
  ["return values of the detection functions"])

if __name__ == "__main__":
    with open(OUT, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            f.write(json.dumps(d) + "\n")
    print(len(P))
