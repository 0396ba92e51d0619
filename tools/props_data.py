HOOKS = {"guard": "none", "enable": "no guarded code was added to /repo; harnesses interpose at link or load time"}
NOTES = ("Checks build /repo's working tree out of tree with the repository's own makefiles into /verif/.build "
         "(cached under a hash of the sources) and drive the real programs or the real objects.")

ENUM = "bounded exhaustive enumeration on the real programs against an executable reference model"

LL = "src/modules/lower-level/"

prop("H01", "Processing layout never changes higher-level results",
     "The pixel values, bands and set of product files that the higher-level programs write are the same whatever block "
     "(chunk) size divides the tile, however many read, compute and write threads are used, and whether streaming is on or off. "
     "This covers time series analysis, level 3 compositing, clear-sky observation statistics, texture, machine learning "
     "and user-defined Python functions; the run fails for lack of input only if no tile at all has input and this is to be an error.",
     ["configurations", "schedules"],
     "every division of a small tile into equally sized blocks, times streaming on/off, times thread counts 1 and 3, for each submodule",
     WHY + "combination of block layout and threading.",
     [HL + "progress-hl.c", HL + "tasks-hl.c", HL + "read-ard-hl.c", "src/main/higher-level/force-higher-level.c", CL + "brick_io-cl.cpp"],
     "processing units are numbered tile by tile and chunk by chunk; three stages read/compute/write overlap; blocks are written into the tile file at an offset",
     technique="exhaustive enumeration of block/thread/streaming configurations of the real program",
     level="model_checking", note="Exhaustive within the stated bounds on the real binary; thread scheduling inside one configuration is whatever the machine does (H02 controls it).")

prop("H02", "Overlapping read, compute and write stages never disturb each other",
     "With streaming on, the products of a run are the same for every interleaving of the reading of one block with the computation of "
     "the block before and the writing of the one before that, and they are those of a run without streaming. Every block of every requested tile is read, computed and written exactly once.",
     ["schedules"],
     "all schedules with one delayed stage, the delay at any file operation, critical section or one of about a hundred allocations; runs of four blocks of all submodules but two",
     WHY + "interleaving of the stages.",
     ["src/main/higher-level/force-higher-level.c", HL + "progress-hl.c", HL + "tasks-hl.c"],
     "three OpenMP threads run one stage each of different blocks between two barriers",
     technique="delay-bounded enumeration of the schedules of the real program under a controlled scheduler (stateless model checking)",
     level="model_checking", note="Each stage has one thread. Two delays, and other orders of the stages, in the thorough tier only.")

prop("H03", "Neighbourhood results do not depend on tile and block borders",
     "Texture metrics and the landscape metrics describing values, area and edges (average, deviation, geometric mean, maximum, area, edge density, effective mesh size) of a pixel are "
     "those obtained from the surrounding pixels of the whole mosaic of tiles, no matter where tile or block borders fall or which "
     "neighbouring tiles exist, as long as the neighbourhood is not larger than a block. Missing neighbours count as nodata.",
     ["configurations", "inputs"],
     "every division into tiles and blocks of a 12 x 12 pixel mosaic, kernel radii of 1 to 3 pixels and 1 to 2 iterations; every set of present tiles of a 3 x 3 arrangement",
     WHY + "position of a neighbourhood relative to the borders.",
     [HL + "read-ard-hl.c", HL + "texture-hl.c", HL + "lsm-hl.c"],
     "a block is extended with pixels read from the neighbouring blocks and tiles, and cropped after processing",
     technique="exhaustive enumeration of tilings of the real program against an independent whole-mosaic reference",
     level="model_checking", note="Exhaustive within the stated bounds; two mosaics of pixel values.")

prop("H04", "Quality screening removes exactly the observations the rules name",
     "For every 16-bit quality value and every screening rule, an observation is excluded from higher-level products if and only if "
     "its quality bits match one of the given rules; rules act independently of one another and of their order.",
     ["inputs", "configurations"],
     "all 65536 quality values times every single rule, every pair of rules and all rules together",
     WHY + "quality value and rule.",
     [HL + "quality-hl.c", CL + "quality-cl.c", HL + "param-hl.c"],
     "per pixel and date, one branch per rule on decoded bit fields", technique=ENUM, level="model_checking",
     note="Exhaustive over quality values; rule combinations to size two and the full set.")

prop("H06", "Date and season windows select exactly the acquisitions inside them",
     "A time series contains exactly the acquisitions whose date lies within the requested date range (both ends included) and whose day "
     "of year lies within the requested season (both ends included), where a season whose start lies after its end wraps around new year.",
     ["configurations", "inputs"],
     "acquisitions on chosen days of two years against every season window formed from the boundary days, and date ranges around the acquisitions",
     WHY + "window.",
     [HL + "read-ard-hl.c", HL + "param-hl.c", CL + "date-cl.c"],
     "file names are filtered by date parsed from the name and a day-of-year lookup", technique=ENUM, level="model_checking",
     note="Exhaustive over the stated windows.")

prop("H07", "Interpolated time series follow the chosen method for every gap pattern",
     "For every pattern of missing observations, the interpolated series equals the requested method: linear interpolation between the "
     "nearest valid observations on both sides, the mean of the valid observations within the moving window, or the original observations "
     "when no interpolation is requested. Dates without the needed observations are nodata, and other pixels never contribute.",
     ["histories", "configurations"],
     "every history of up to seven acquisitions, each missing or one of several values, for several interpolation steps and window widths",
     WHY + "gap pattern.",
     [HL + "interpolate-hl.c", HL + "tsa-hl.c"],
     "per pixel scan over dates for the nearest neighbours", technique=ENUM, level="model_checking",
     note="Exhaustive over histories to the stated depth; radial basis function fits are checked against a reference within rounding. Harmonic fits are the subject of H20.")

prop("H08", "Spectral temporal metrics are the statistics of the valid observations",
     "Every spectral temporal metric equals the named statistic (count, extremes, range, mean, sample standard deviation, skewness, excess "
     "kurtosis, quantiles, interquartile range) of the pixel's valid observations, whichever other metrics are requested and in whatever order; "
     "pixels without valid observation are nodata in all metrics.",
     ["histories", "configurations"],
     "every history of up to seven acquisitions over a small value alphabet including missing values; every single metric, the full set and reorderings",
     WHY + "history.",
     [HL + "stm-hl.c", CL + "stats-cl.c"],
     "single-pass recurrences and a quantile over a copied array", technique=ENUM, level="model_checking",
     note="Exhaustive over histories to the stated depth.")

prop("H09", "Folded series aggregate exactly the observations of their period",
     "Every value of a folded time series equals the chosen statistic of exactly those valid observations that fall in its year, quarter, "
     "month, week or day of year; periods without valid observations are nodata.",
     ["histories", "configurations"],
     "every history of missing/valid values over acquisitions placed on both sides of period borders; every fold type",
     WHY + "history.",
     [HL + "fold-hl.c", HL + "tsa-hl.c", CL + "date-cl.c"],
     "per pixel and period, scan over all dates comparing calendar fields", technique=ENUM, level="model_checking",
     note="Exhaustive over histories to the stated depth.")

prop("H10", "Trend and change products are the least squares fit of the folded series",
     "Trend products report the least-squares fit of the pixel's folded series against period (mean, offset, slope, gain, fit quality, length) "
     "using only valid periods, and the significance class follows the sign of the slope and the requested tail and confidence. "
     "Change products report the largest drop between consecutive valid periods (with the penalty: the drop with the largest product of itself and the drop to the next valid period), absolute and relative to the offset, its period, and the fits of the whole series and of the part from the change on.",
     ["histories", "configurations"],
     "every history of up to seven years, four quarters and eight of twelve months over a small value alphabet including missing periods; every tail type, four confidences, with and without penalty",
     WHY + "history.",
     [HL + "trend-hl.c", CL + "stats-cl.c"],
     "single-pass regression recurrences", technique=ENUM, level="model_checking",
     note="Exhaustive over histories to the stated depth; numeric comparison within rounding of the stored integers. The part before the change is not compared; with the penalty only series in which it singles out one positive drop are.")

prop("H11", "Composites take every pixel from one eligible observation with the best score",
     "Each pixel of a best-available-pixel composite holds the spectra of one acquisition that is valid at this pixel and within the compositing period, no other such acquisition has a higher total score, and the composite information gives the number of such acquisitions, the date, the sensor and the scores of the selected one, the total score being the documented weighted combination of the single scores. With averaging instead of selection, the spectra are the score-weighted mean of exactly these acquisitions.",
     ["histories", "configurations"],
     "every assignment of six states (missing, clouds, haze, shadow, clear near and far from clouds) to six acquisitions around the target day, for 288 window and weighting settings",
     WHY + "assignment.",
     [HL + "bap-hl.c", HL + "level3-hl.c"],
     "scores per date and pixel; arg max; copy of spectra and info", technique=ENUM, level="model_checking",
     note="Exhaustive over observation states to the stated depth.")

prop("H12", "Clear-sky observation statistics describe exactly the clear dates",
     "For every pixel and period, the number of observations and the statistics of the day gaps between them are those of exactly the clear "
     "acquisitions in this period.",
     ["histories"], "every clear/cloudy pattern over acquisitions placed at and around period borders",
     WHY + "pattern.", [HL + "cso-hl.c"], "scan over dates with window bookkeeping", technique=ENUM, level="model_checking",
     note="Exhaustive over clear/cloudy patterns.")

prop("H13", "A spectral index does not depend on what else is requested",
     "The time series of a spectral index is the value of its documented formula on the bands of the observation, and is the same whichever other indices are "
     "requested along with it, in whatever order, and whichever other sensors are requested; observations with undefined value are nodata.",
     ["configurations", "inputs"],
     "every ordered pair of indices, all indices alone and together, on pixels enumerating band value combinations, for several sensors",
     WHY + "combination of indices.", [HL + "index-parse-hl.c", HL + "index-compute-hl.c", HL + "sensor-hl.c"],
     "bands not needed by any index are dropped and the remaining ones renumbered", technique=ENUM, level="model_checking",
     note="Exhaustive over pairs and band value alphabet.")

prop("H14", "Samples are extracted in lockstep from the pixel that contains them",
     "Sampling writes, for every sample point inside the requested tiles whose features are all valid, exactly one line to each of the feature, response "
     "and coordinate files; line k of the three files belongs to the same sample, and the features are those of the pixel containing the point. "
     "This holds for every placement of points relative to pixel, block and tile borders and every block layout.",
     ["inputs", "configurations"], "every point position on a half-pixel lattice over two tiles, every block layout, every feature validity pattern",
     WHY + "position.", [HL + "sample-hl.c", CL + "cube-cl.c"], "tile/pixel lookup per point; three appended files", technique=ENUM, level="model_checking",
     note="Exhaustive over the point lattice.")

prop("H15", "Processing masks only switch pixels off",
     "For every mask pattern, pixels outside the mask are nodata in the products and pixels inside have exactly the values they have without any mask; "
     "blocks and tiles that are masked completely do not affect others. This covers the pixel-wise submodules (time series analysis, compositing, clear-sky "
     "statistics, machine learning; for Python functions only the pixels inside the mask).",
     ["inputs", "configurations"], "every mask pattern of a 3x3 pixel group, aligned with and shifted against the blocks, for each block layout and pixel-wise submodule",
     WHY + "mask pattern.", [HL + "read-ard-hl.c", HL + "tsa-hl.c", HL + "cso-hl.c"], "mask block read first; per-pixel test in each algorithm", technique=ENUM, level="model_checking",
     note="Exhaustive over mask patterns.")

prop("H16", "No accepted configuration corrupts memory or crashes",
     "Every higher-level configuration that the parameter reader accepts runs to completion on valid data without memory errors: every single output product, every pair of output products and every option value of time series, compositing, clear-sky, machine-learning, texture, landscape, library and sampling processing, also with empty, fully masked, absent or single-observation input.",
     ["configurations"],
     "every output switch alone and in pairs, every enumerated option value of eight submodules, times normal, single-observation, empty, masked and absent input",
     WHY + "combination of options.", [HL + "tsa-hl.c", HL + "level3-hl.c", HL + "param-hl.c"], "products are allocated only when requested", 
     technique="exhaustive enumeration of option combinations on an address-sanitised build", level="model_checking",
     note="Memory errors are those AddressSanitizer detects.")

prop("H17", "Machine learning products follow from the predictions of the given models",
     "For every combination of feature values, the regression product is the mean prediction of the models used up to convergence, its uncertainty their standard deviation, and the iteration product the number of models used; the classification product is a class "
     "most models voted for, the probability and margin products are the mean class probabilities of the forests and the difference of the two largest. Each model set gives its own band, in the given order; pixels with missing features are nodata if these are to be excluded.",
     ["inputs", "configurations"],
     "8000 combinations of three feature values inside, at and beyond the training range and missing, for 194 configurations of method, model sets, convergence, scale, exclusion and requested products",
     WHY + "combination of features and models.", [HL + "ml-hl.c", HL + "read-aux-hl.cpp"],
     "running means over models with early exit", technique=ENUM, level="model_checking",
     note="The predictions of the single models are taken from OpenCV through its Python interface.")

prop("H18", "Library completeness is the distance to the closest library sample",
     "For every combination of feature values, each band of the library completeness product is the smallest mean absolute difference between the pixel's valid features and a sample of that library, after standardising both with the library's mean and deviation if requested, and the last band "
     "is the smallest over all libraries. Pixels without valid feature are nodata, and so are pixels with a missing one if these are to be excluded; libraries that do not fit the features give no product.",
     ["inputs", "configurations"],
     "20736 combinations of up to five feature values, libraries of 1 to 17 samples and 1 to 5 features alone and together, in several separators, rescaled or not, excluded or not",
     WHY + "combination of features and libraries.", [HL + "lib-hl.c", HL + "read-aux-hl.cpp", CL + "table-cl.c"],
     "tables are read into growing buffers; nearest sample search per pixel", technique=ENUM, level="model_checking",
     note="Distances beyond the 16 bit range are not compared.")

prop("H19", "Standardised series are centred or normalised and nothing else changes",
     "Centred series are the plain series minus their mean over time, normalised ones are in addition divided by their standard deviation, per pixel and over valid dates only; nodata stays nodata and series with less than two values stay as they are. "
     "Standardising one kind of series changes no other product.",
     ["histories", "configurations"],
     "every history of six acquisitions over five and of nine over three states; all 27 settings for observed, interpolated and folded series with all products, and each product alone, masked and with two indices",
     WHY + "history and setting.", [HL + "standardize-hl.c", HL + "tsa-hl.c"],
     "series are standardised in place after everything else was computed", technique=ENUM, level="model_checking",
     note="Constant series cannot be normalised and are not compared.")

prop("H20", "Harmonic interpolation and residuals follow the least squares fit",
     "With harmonic interpolation, the interpolated values are the least-squares harmonic fit (with or without trend, one to three modes) of the observations in the fit range, and the near-real-time residuals are the observations after it minus the fit. "
     "Both are nodata for pixels that have too few observations or are masked, and residuals are nodata where there is no observation.",
     ["histories", "configurations"],
     "all 2^11 patterns of observed and missing training dates times nine states of the dates afterwards, for all numbers of modes and trend settings, steps and masks",
     WHY + "pattern of observations.", [HL + "interpolate-hl.c", HL + "tsa-hl.c"],
     "per pixel least squares on a design matrix built from dates", technique=ENUM, level="model_checking",
     note="Patterns for which the fit is not determined numerically are not compared.")

prop("H21", "Noise screening removes outliers and restores inliers of every series",
     "With noise screening, observations are removed one by one as long as the largest residual to the line between the neighbouring valid observations exceeds the given multiple of the root mean square of these residuals; at the ends of the series the end is removed if it deviates more than its neighbour. "
     "Masked but present observations between valid ones whose residual is below the other multiple of this noise are then restored, never those removed before, and nothing else changes.",
     ["histories", "configurations"],
     "every history of six acquisitions over eight states (clear and masked values, missing), of eight over four, and of three on one day plus three; sixteen pairs of levels",
     WHY + "history.", [HL + "quality-hl.c"],
     "iterated scan with a pair of neighbours per date", technique=ENUM, level="model_checking",
     note="Series in which two residuals tie, or a residual equals a level, are not compared; a removal level of zero is out of scope.")

prop("H22", "Products describe themselves and do not depend on the output layout",
     "Every product image lies on the pixel grid of its tile, in the projection of the datacube, its name carries the requested period and days of year, and its bands are named, ordered and dated after the acquisitions or periods they hold. "
     "Names, values, nodata and data type of the bands are the same in every image format, with one file per band (composites stay in one file) or per product, with or without folders per product, and for any number of blocks.",
     ["configurations"],
     "ten submodules, four image formats, one file per band or per product, folders, one or two blocks, two tiles; five periods of dates and days of year",
     WHY + "output layout.", [CL + "brick_io-cl.cpp", CL + "brick_base-cl.c", CL + "gdalopt-cl.c", HL + "tsa-hl.c", HL + "cso-hl.c"],
     "file names, band metadata and GDAL drivers set per product", technique=ENUM, level="model_checking",
     note="Cloud-optimised images need whole tiles as blocks (documented); band dates are not compared for ENVI images.")

prop("H23", "User-defined code receives the labelled input and its output is stored",
     "User-defined Python or R code receives, for every block or pixel, the screened values of all acquisitions (or of the interpolated series) in chronological order with the dates, sensors and band names they belong to, auxiliary products included, and nodata for everything screened, masked or missing. "
     "Each value it returns is stored at the pixel and in the band it was returned for, under the name given at initialisation; values that the code does not set are nodata. "
     "This holds for every set of acquisitions, division into blocks and number of threads.",
     ["inputs", "configurations"],
     "all 63 sets of six acquisitions of three sensors, every combination of missing ones (one per pixel), code per pixel or block, all ordered sets of auxiliary products, five divisions into blocks, streaming, threads, mask, four interpolations",
     WHY + "acquisition.", [HL + "py-udf-hl.c", HL + "r-udf-hl.c", HL + "udf-hl.c", HL + "read-ard-hl.c"], "flat copies between images and arrays", technique=ENUM, level="model_checking",
     note="R code called pixel by pixel runs with one thread only, more need a package that is not installed.")

prop("H24", "Unmixed fractions are the best fit under the constraints asked for",
     "For every spectrum, set of reference spectra and choice of constraints, the fraction in the unmixing product is that of the least squares solution, over non-negative fractions only if that is asked for, with the condition that fractions sum to one taking part as one more band, and divided by the unshaded part if shade normalisation is asked for. "
     "The residual product is the root mean squared error of that solution before normalisation, including that condition. "
     "Pixels that are screened, missing or outside the processing mask are nodata in both, and the result of an acquisition does not depend on the other acquisitions or requested indices.",
     ["inputs", "configurations", "histories"],
     "all combinations of four values in two bands and three in four bands (six or ten bands), all mixtures of four reference spectra with five fractions and five residuals, two sensors alone and together, every set of constraints with at least one, all fractions, series of 2 and 140 acquisitions",
     WHY + "spectrum.", [HL + "index-compute-hl.c", HL + "tsa-hl.c"], "iterative active set solution per pixel and date", technique=ENUM, level="model_checking",
     note="The reference tries all active sets. Not compared: shade fraction within 0.05 of one with normalisation, values beyond 16 bit. Mask and other index only for the first fraction without normalisation.")

prop("C01", "Every coordinate belongs to exactly one tile and one pixel",
     "For every grid origin, tile size and resolution, a coordinate is assigned to the one tile whose half-open extent contains it and to the one pixel of that tile "
     "containing it; all tools that map coordinates to tiles (tile finder, grid tabulation, sampling) agree.",
     ["inputs", "configurations"], "all lattice coordinates over several tiles in all four quadrants around the origin, several tile sizes and resolutions",
     WHY + "coordinate.", [CL + "cube-cl.c", "src/main/aux-level/force-tile-finder.c", "src/main/aux-level/force-tabulate-grid.c"], "floor division relative to the origin",
     technique=ENUM, level="model_checking", note="Exhaustive over the lattice.")

prop("C02", "A datacube definition is read back as written, also when created concurrently",
     "Writing a datacube definition and reading it back yields the same grid (to six decimals), and processes that create, read or copy the definition of the same datacube at the same time obtain either no definition (when nobody has created it yet) or the complete one, for every interleaving of their file operations. A writer that dies at any point leaves no or a complete definition.",
     ["schedules", "crash_points", "inputs"],
     "all interleavings of file operations of up to three processes in twelve scenarios; every crash point of a writer; 400 combinations of definition values",
     WHY + "interleaving.", [CL + "cube-cl.c"], "existence test, lock, write", technique="controlled scheduler over the real code (stateless model checking)", level="model_checking",
     note="File operations are interposed; taking a lock is as atomic as the program makes it.")

prop("C03", "Concurrent writers to one tile leave the result of some serial order",
     "When several processes write images of the same tile and date at the same time, the final product equals the one of some serial order of these writes for every interleaving: values are averaged, quality information keeps the most restrictive state, and nothing is lost, mixed or overwritten by nodata. Every writer reports success, the provenance lists every write once, and no lock is left behind.",
     ["schedules"],
     "all interleavings of lock, file and directory operations of two and three writers, for each write mode, with and without existing directory and image",
     WHY + "interleaving.", [CL + "brick_io-cl.cpp", CL + "lock-cl.c", CL + "dir-cl.c"], "lock file per output; read-merge-write",
     technique="controlled scheduler over the real code (stateless model checking)", level="model_checking",
     note="Exhaustive up to the preemption bound.")

prop("P01", "Parameter files mean the same however they are formatted",
     "The configuration obtained from a higher-level parameter file does not depend on the order of the parameters, on comments, blank lines, carriage returns or on blanks around keys, values and equal signs.",
     ["inputs"],
     "every single formatting edit at every line, and pairs of edits, of every higher-level module's parameter file",
     WHY + "edit.", [CL + "param-cl.c"], "line based tokenizer", technique=ENUM, level="model_checking", note="Exhaustive over single edits.")

prop("P02", "Incomplete or out-of-range parameter files are refused before writing",
     "A higher-level parameter file that lacks a parameter or gives a value outside the documented limits, outside the documented list of keywords, or an impossible date is refused with non-zero exit code and without creating any product; the limits themselves and every documented keyword are accepted.",
     ["inputs", "configurations"],
     "every parameter of every higher-level module removed, and set just below, at and just above its documented limits and to every documented keyword",
     WHY + "parameter.", [CL + "param-cl.c", HL + "param-hl.c"], "registration with type and bounds", technique=ENUM, level="model_checking", note="Exhaustive over parameters and boundary values.")

prop("P03", "Level 2 parameter files are read independent of layout and checked for limits",
     "Blanks, comments, empty lines, line ends and the order of lines in a level 2 parameter file change neither the products nor the parameters recorded in them. A file that lacks a parameter or gives a value outside the documented limits or keywords is refused with non-zero exit code and without any product; the limits and keywords themselves are accepted.",
     ["inputs", "configurations"],
     "every formatting edit at every line of the file; every parameter removed, emptied and set below, at and above its documented limits and to every documented keyword",
     WHY + "parameter and line.", [CL + "param-cl.c", LL + "param-ll.c"], "registration with type and bounds", technique=ENUM, level="model_checking",
     note="Exhaustive over parameters, lines and edits. Values that need data not available here (databases, huge tiles) are left out.")

prop("Q01", "The level 2 processing queue records every image exactly once",
     "After a batch run, every image that was queued is marked done or failed according to its processing exactly once and was handed to processing exactly once (archives unpacked, corrupt ones failed), images that were not queued are untouched, and no entry is lost, duplicated or altered. This holds for every interleaving of the parallel jobs and for image paths that contain, resemble or pattern-match each other.",
     ["schedules", "inputs", "histories"],
     "all interleavings of queue updates of two jobs and all orders of three; 778 queues of paths that are prefixes, suffixes or pattern matches of each other in all states",
     WHY + "interleaving.", ["bash/force-level2.sh"], "queue file edited in place by each job under a lock file",
     technique="controlled scheduler over the real script (stateless model checking)", level="model_checking", note="The image processor is replaced by a recording stand-in.")

prop("X01", "Calendar conversions are exact and mutually inverse",
     "On the 365-day calendar used throughout, converting between day of year, month and day, week, quarter and continuous day count is exact and mutually inverse for every day of every year, and after setting any of these on a date, all others agree with it.",
     ["inputs"],
     "every day of every year 1900 to 2099; every day followed by setting every other day, week, month, quarter or year", WHY + "day.", [CL + "date-cl.c"], "lookup by cumulative month length",
     technique=ENUM, level="model_checking", note="Exhaustive.")

prop("X02", "Quality bits are independent fields",
     "Setting a quality flag changes only this flag, reading returns the last value set, and inflating a quality image to single bands yields exactly the documented bits, for every 16-bit quality value.",
     ["inputs", "histories"], "all 65536 words times all fields times all field values; all words through force-qai-inflate", WHY + "quality word.",
     [CL + "quality-cl.c", "src/main/higher-level/force-qai-inflate.c"], "shift and mask", technique=ENUM, level="model_checking", note="Exhaustive.")

prop("X03", "Image operators compute their definition on every binary or grey image",
     "Labelling of 8-connected patches, removal of patches below a minimum size, distance to the nearest set pixel, majority filling (all unset pixels with five or more set neighbours "
     "are set at once), growing by a radius and greyscale flood filling yield the result of their definition for every image, independent of the order in which pixels are visited.",
     ["inputs"], "all binary images up to 4 x 4, 2 x 9, 3 x 6 and 14 x 1 pixels; all three-valued images up to 4 x 3; all sets of grown pixels in small images",
     WHY + "image.", [CL + "imagefuns-cl.c", CL + "queue-cl.c"], "contour tracing, two-pass scans, queue propagation",
     technique=ENUM, level="model_checking", note="Exhaustive over small images; operators are called directly in the compiled library.")


prop("L01", "Landsat digital numbers become reflectance by the scene's own calibration",
     "Every valid pixel of a Landsat scene processed without atmospheric correction carries, in every band, the top-of-atmosphere reflectance that the calibration factors of that band in the scene's "
     "metadata and the sun position give, limited to the range of the data type. A pixel is nodata if any band but cirrus is void or has no positive reflectance, and nodata pixels carry "
     "no data and no other flag; pixels saturated in any reflective band, brighter than 1, or with a sun lower than 15 degrees above the horizon are flagged so.",
     ["inputs"], "every digital number of every band of Landsat 4, 5, 7, 8 and 9 under several sun positions; every combination of void, ordinary and saturated over the bands",
     WHY + "digital number and flag combination.", [LL + "read-ll.c", LL + "meta-ll.c", LL + "sunview-ll.c", LL + "cube-ll.c"],
     "metadata is parsed per band; calibrated in single precision and stored as 16 bit integers", technique=ENUM, level="model_checking",
     note="Exhaustive over digital numbers; the sun position is taken from an independent almanac within 0.15 degree.")

prop("L02", "Level 2 images are cut into tiles without loss, shift or duplication",
     "The tiles written for a scene that needs no resampling contain every valid pixel of the scene exactly once, in the tile and at the position its coordinate names, and nodata elsewhere; tiles "
     "without any valid pixel, and tiles that are not on the list of wanted tiles, are not written.",
     ["inputs", "configurations"], "scenes of many positions and sizes relative to the tile grid, tile sizes, sets of valid pixels and tile lists",
     WHY + "position of a scene relative to the grid.", [LL + "cube-ll.c", CL + "cube-cl.c", CL + "warp-cl.cpp", CL + "brick_io-cl.cpp"],
     "the scene is warped into the grid of the datacube and chopped into tiles", technique=ENUM, level="model_checking",
     note="Nearest neighbour resampling onto an aligned grid; interpolating resampling is GDAL's.")

prop("L03", "Images of one day and sensor merge into one product in any order",
     "When several scenes of the same date and sensor fall into a tile, the tile has one product in which every pixel valid in at least one of the scenes has a value made from the scenes valid there, "
     "pixels covered once keep the value of that scene, and the set of valid pixels does not depend on the order in which the scenes were processed.",
     ["histories"], "every order of up to three overlapping scenes with every pattern of valid pixels, repeated processing included",
     WHY + "order.", [CL + "brick_io-cl.cpp", LL + "cube-ll.c"],
     "an existing product is locked, read, merged and written back", technique=ENUM, level="model_checking", note="Exhaustive over orders; C03 covers concurrent writers.")

prop("L04", "Cloud, shadow, snow and nodata areas grow by exactly the buffers asked for",
     "In level 2 quality information the buffered cloud, cirrus, shadow, snow and nodata pixels are those within the requested distance of a detected pixel, also at the image border. "
     "The distance product is the distance to the nearest such pixel, erased clouds are nodata, pixels outside the area of interest are nodata, and nothing of this depends on the number of threads.",
     ["configurations", "inputs"], "scenes with clouds, cirrus, shadows, snow and void pixels at the border and inside, for buffers of zero to several pixels, each option on and off, one to four threads",
     WHY + "buffer and position.", [LL + "cloud-ll.c", CL + "imagefuns-cl.c", LL + "read-ll.c"],
     "binary masks are dilated with a rasterised circle", technique=ENUM, level="model_checking",
     note="Which pixels are cloud, shadow or snow in the first place is taken from an unbuffered run.")

prop("L05", "Cloud cover limits decide exactly which scenes and tiles are written",
     "A scene is processed if and only if its share of cloudy valid pixels does not exceed the limit for scenes, and a tile is written if and only if the share of its valid pixels that are cloudy "
     "does not exceed the limit for tiles; nodata pixels count neither as cloud nor as area.",
     ["inputs", "configurations"], "every number of cloudy and of valid pixels of small tiles against every integer limit; scenes with growing clouds against limits around their share",
     WHY + "share and limit.", [LL + "cloud-ll.c", LL + "cube-ll.c"],
     "pixel counts are compared with percentages in single precision", technique=ENUM, level="model_checking",
     note="Equality of share and limit is judged for whole numbers only.")

prop("L06", "Sentinel-2 granules are calibrated and put on one grid for every swath",
     "Every valid pixel of a Sentinel-2 granule processed without atmospheric correction and resolution merge carries, in each of the ten bands, the reflectance that the digital number of the 10 or 20 m pixel "
     "covering it, the quantification value and the band's offset give, limited to the range of the data type. A pixel is nodata if any band but cirrus is void or if its cell of the view angle grid is not covered by "
     "the swath; saturated, brighter than 1, and negative pixels are flagged so.",
     ["inputs"], "every digital number of every band; void or saturated in every subset of bands; every span of rows or columns of a granule covered by the swath, and oblique swaths",
     WHY + "digital number and swath.", [LL + "meta-ll.c", LL + "read-ll.c", LL + "sunview-ll.c"],
     "the granule is cropped to cells with view angles; offsets differ by product version", technique=ENUM, level="model_checking",
     note="Pixels at the very border of scene and swath are not compared.")

prop("L07", "No level 2 configuration corrupts memory or depends on the number of threads",
     "For every combination of atmospheric, topographic, illumination, output, reprojection, tiling, buffering and resolution merge options accepted, level 2 processing of Landsat and Sentinel-2 scenes ends without touching memory it "
     "does not own, and all products are the same with one and with several threads.",
     ["configurations", "schedules"], "about 300 combinations on seven inputs (ordinary, cloudy, void and tiny scenes), each run with the address sanitiser and with one and three threads",
     WHY + "combination of options.", [LL + "atmo-ll.c", LL + "cloud-ll.c", LL + "resmerge-ll.c", LL + "gas-ll.c", LL + "topo-ll.c", LL + "brdf-ll.c", LL + "aod-ll.c", "src/main/lower-level/force-l2ps.c"],
     "many loops run in parallel over pixels with shared buffers", technique="exhaustive enumeration of option combinations of the real program, address-sanitised and with two thread counts", level="model_checking",
     note="Thread schedules within a run are the machine's; differing results between thread counts are what reveals order dependence.")

prop("A01", "Stacks, metadata copies and histograms repeat their input",
     "A stack has the bands of its input images with their values, nodata values, names and band metadata: band by band if all images have the same number of bands, else image by image; images that do not fit are refused. "
     "Copying metadata makes the destination carry exactly the metadata and band names of the source and leaves its pixels alone. "
     "A histogram lists every value that occurs in the band asked for, once and in ascending order, with the number of its pixels, nodata excluded.",
     ["inputs"], "all sequences of two and three out of six images of one to three bands, all pairs of images for copies, all multisets of up to four pixels over six values including the limits, one image with all 16 bit values",
     WHY + "input.", ["src/main/aux-level/force-stack.c", "src/main/aux-level/force-mdcp.c", "src/main/aux-level/force-hist.c", CL + "table-cl.c"],
     "virtual images written through the image library; counts in a table of all 16 bit values", technique=ENUM, level="model_checking", note="Exhaustive within the bounds.")

prop("A02", "Parameter files made from variables cover each combination once",
     "From a parameter file with replacement variables one file is made for every combination of values (or for every position if values are paired), numbered without gaps, in which every use of a variable is replaced by its value and everything else from the start of the parameter block on is as in the input. "
     "Paired vectors of different length, unknown ways to combine and files without variables are refused and nothing is written.",
     ["inputs", "configurations"], "one to three variables with one to three values each in every order, two sets of names, one with names contained in each other, both ways to combine, two layouts, five refusals",
     WHY + "combination.", ["bash/force-magic-parameters.sh"], "text substitution by shell tools", technique=ENUM, level="model_checking", note="Exhaustive within the bounds.")

prop("A03", "Stratified samples never exceed the request, whatever the random numbers",
     "For every classification, table of requested sizes and sequence of random numbers, each sampled point is the centre of a different pixel that has the class it is labelled with, never nodata and never a class that is not in the table, and no class has more points than requested. "
     "A class of which all pixels are candidates has exactly the requested number of points (or all its pixels if it has fewer), and every pixel of a requested class is sampled for some random numbers. "
     "An existing sample is not overwritten.",
     ["inputs", "configurations"], "all images of 2 x 2 pixels over two requested classes, another class and nodata; all sequences of smallest and largest random numbers; a long row with more candidates than expected; bands and output formats",
     WHY + "sequence of random numbers.", ["src/main/aux-level/force-stratified-sample.c"], "random preselection, then thinning",
     technique="exhaustive enumeration of inputs and of the outcomes of the random number generator (controlled nondeterminism) on the real program", level="model_checking",
     note="Random numbers are replaced at load time.")

prop("A04", "Mosaics show each product in exactly the tiles that have it",
     "For every product in a datacube, whichever tiles it exists in and however the names of products resemble each other, the mosaic covers the tiles that have this product, shows their pixels at their place and nodata elsewhere, and has their band names, metadata and nodata value. "
     "This holds for any mosaic directory, when run again, and after moving datacube and mosaics together; the datacube is not changed and no temporary files are left.",
     ["inputs", "configurations", "histories"], "15 products, one per non-empty set of four tiles, with all combinations of three naming schemes, two file types and four kinds of mosaic directory, each with one or four jobs, run twice, then moved",
     WHY + "set of tiles.", ["bash/force-mosaic.sh", "src/main/aux-level/force-mdcp.c"], "lists of files searched by name", technique=ENUM, level="model_checking", note="Exhaustive within the bounds.")

prop("A05", "External data are cubed into exactly the tiles they cover",
     "An external image or polygon, at any position relative to the tile grid including negative tiles and tiles that are not square, is put into exactly the tiles that contain one of its valid pixels, with every pixel at its place, nodata elsewhere and nothing left over; a second image of the same name adds its valid pixels to what is there. "
     "The allow-list and tile ranges suggested for an area of interest are those of the same tiles.",
     ["inputs", "histories"], "eleven positions along each axis in turn around the origin with up to three extents, square and other tiles, images, polygons and areas of interest; 15 relative positions of two images or polygons",
     WHY + "position.", ["bash/force-cube.sh", "bash/force-tile-extent.sh", "misc/force-bash-library.sh"], "tile numbers from floor division in shell scripts", technique=ENUM, level="model_checking",
     note="Same projection and resolution as the datacube, nearest neighbour.")

prop("A06", "Processing masks are the expression evaluated for every pixel",
     "A processing mask made from a product of a datacube is, for every tile that has this product and for every pixel, one where the expression holds for the value of the band asked for, zero where it does not, and nodata where the product is nodata. "
     "Masks lie on the grid of the datacube under the name asked for; missing products, other directories and datacubes that do not match are refused.",
     ["inputs", "configurations"], "sixteen values around the limits of 8 bit and up to that of 16 bit, with all combinations of seven expressions with and without blanks, three bands and two tile shapes, each with one of the four choices of output name and working directory",
     WHY + "value.", ["bash/force-procmask.sh"], "one external calculation per tile", technique=ENUM, level="model_checking", note="All choices of output name and directory with every expression are in the thorough tier only.")
