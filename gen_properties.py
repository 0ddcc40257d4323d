"""Source of properties.jsonl (kept as Python for readability): python3 gen_properties.py"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Averaging onto a time grid uses exactly the valid samples of each bin",
  "When measurements are averaged onto a target time grid, every output bin holds the requested statistic (mean, standard deviation or maximum) of exactly the valid (unmasked, finite) samples whose timestamps fall in that bin, whose edges lie midway between grid points. A bin without valid samples is masked and reported as empty instead of holding an invented value, and the default grid divides the day 0-24 h into equal steps with the grid points at the step centres. The input arrays are not modified.",
  ["inputs"], "all sample times, masks, NaNs, values, grids, minimum counts and statistics",
  "tests use a few hand-written vectors; duplicates, samples on bin edges, empty, fully masked or all-zero bins and samples outside the grid are mostly not covered",
  ["cloudnetpy/utils.py", "cloudnetpy/cloudnetarray.py"],
  [("bin edges", "utils.binvec, utils.time_grid"), ("1-D and 2-D binning", "utils.rebin_1d, utils.rebin_2d"), ("array wrapper", "CloudnetArray.rebin_data")],
  ["return values of the binning functions"])

p("P02", "Gridding by interpolation keeps gaps and never invents data",
  "Linear interpolation reproduces the piecewise (bi)linear function through the valid input points and nearest-neighbour interpolation returns the value of a closest input point; both return the input unchanged at the input's own grid points. Output points that lie outside the input range (1-D interpolation instead extends the edge values as constants within the gap limit), are nearest to a missing sample, or are farther from every valid sample than the allowed gap come out masked, and all other points come out valid. Values produced by linear interpolation never leave the range spanned by the valid inputs.",
  ["inputs"], "all grids (regular or not), masks, NaNs, gap limits and target points",
  "tests cover a handful of 3x3 arrays; the behaviour depends on the geometry of the masks, the grids and the gaps",
  ["cloudnetpy/utils.py"],
  [("2-D interpolation with mask", "utils.interpolate_2d_mask"), ("nearest neighbour", "utils.interpolate_2d_nearest, utils.interpolate_2D_along_y"), ("gap limit", "utils.interpolate_1d, utils.get_gap_ind")],
  ["return values of the interpolation functions"])

p("P03", "Elementary array helpers obey their algebraic definitions",
  "Bit setting and testing agree with integer arithmetic, dB and linear conversions are inverse to each other and keep masks, the resetting cumulative sum and forward fill agree with an element-by-element loop, isolated-pixel and small-object filters remove exactly the connected components of the stated size, and edge/centre/tilt conversions and l2 norms agree with their formulas. No helper changes data it was not asked to change. A timestamp window keeps exactly one sample of each distinct time of the requested date, in ascending order, consistently over all arrays that share the time dimension, and fails with the documented exception when none is left.",
  ["inputs"], "all integer and masked float arrays, shapes, bit numbers, epochs and dates",
  "tests check a few literal examples per helper; every product goes through these helpers with arbitrary data",
  ["cloudnetpy/utils.py"],
  [("bits", "utils.isbit, utils.setbit"), ("dB", "utils.db2lin, utils.lin2db"), ("run lengths", "utils.cumsumr, utils.ffill"), ("filters", "utils.filter_isolated_pixels, utils.filter_x_pixels, utils.remove_small_objects"), ("time screening", "utils.screen_by_time, utils.find_valid_time_indices, utils.get_epoch")],
  ["return values of the helpers"])

p("P04", "Site geolocation in output files follows the documented source priority",
  "Latitude and longitude written to a file come from the instrument's own GPS when it is declared to have one and reports a position, otherwise from the user-supplied site coordinates, otherwise from the raw file's variables or global attributes; altitude never comes from GPS. Longitudes are expressed in [-180, 180] and signs are kept; a stationary instrument gets scalar coordinates equal to the mean position, a moving one keeps one coordinate per time step. The recorded source of each coordinate names where the value came from.",
  ["inputs", "configurations"], "all combinations of GPS flag, user coordinates, raw-file variables/attributes, masks and zeros, moving and stationary tracks",
  "tests cover a few combinations for a handful of instruments",
  ["cloudnetpy/utils.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
  [("priority and normalisation", "utils.add_site_geolocation")],
  ["latitude, longitude, altitude of the output"])

p("P05", "Output files contain exactly the data and metadata they were given",
  "Writing a level-1b or product file and reading it back gives every array unchanged up to the stored precision, with the same mask (missing values stored as the declared fill value), the declared dimensions, data type, units, names and comments. Each file carries its file type, format version, date split into year/month/day, location, conventions and a unique identifier equal to the one returned to the caller, and a requested identifier is honoured.",
  ["inputs", "configurations"], "all arrays, masks, shapes, data types, fill values, metadata and identifiers",
  "tests write a few fixed arrays; masked, empty, scalar, 1-D to 3-D, integer and string-attribute combinations are not enumerated",
  ["cloudnetpy/output.py", "cloudnetpy/cloudnetarray.py", "cloudnetpy/metadata.py"],
  [("writing", "output.save_level1b, output.save_product_file, output.init_file"), ("array metadata", "CloudnetArray.fetch_attributes, output.add_time_attribute, output.update_attributes"), ("copying", "output.copy_variables, output.copy_global, output.add_standard_global_attributes")],
  ["the NetCDF file on disk"])

p("P06", "Provenance of every derived file is complete and correctly ordered",
  "A derived file lists the unique identifiers of exactly the source files it was made from, each once and in sorted order, and its history starts with one new entry for the file itself followed by the history entries of its sources, newest first and without losing any. The source instrument/model descriptions are carried into the derived file.",
  ["inputs", "histories"], "all sets of source files with arbitrary identifiers (present, repeated, missing), histories and processing chains",
  "tests look at one chain with fixed identifiers",
  ["cloudnetpy/output.py"],
  [("identifiers", "output.get_source_uuids, output.add_source_uuids"), ("history", "output.merge_history, output.get_history_source"), ("instruments", "output.add_source_instruments")],
  ["source_file_uuids, history and source attributes of the output"])

p("P07", "Concatenating files keeps every profile once, in time order",
  "Concatenating, bundling or updating NetCDF files yields a file whose time axis contains the time steps of the inputs in file-name order (for updates: the already present steps followed by the new file's steps that are later than the last one, without gaps), and in which every variable holds, at each time step, the value and mask of the input file that step came from, repeated over the time steps of the file if it has no time dimension. Attributes and the range grid are taken from the first file; files on another range grid are matched to the nearest range and masked outside their own range; variables missing in a later file are masked there. Options that limit or ignore variables act only as stated, inputs stay untouched, repeating an update changes nothing, and having no usable file ends with the documented exception.",
  ["inputs", "histories", "configurations"], "all splits of a day into files, variable sets, masks, dimension layouts, orders of file names, repeated updates",
  "tests concatenate a few recorded files and compare sizes or single values",
  ["cloudnetpy/concat_lib.py"],
  [("concatenation", "concat_lib.concatenate_files"), ("incremental update", "concat_lib.update_nc, concat_lib.bundle_netcdf_files"), ("text files", "concat_lib.concatenate_text_files"), ("truncation", "concat_lib.truncate_netcdf_file")],
  ["the concatenated file"])

p("P08", "The categorize file holds the inputs gridded as documented",
  "The categorize file is on the 30-second grid of the day (restricted to steps with data) and the radar height grid above mean sea level; radar reflectivity, width and LDR are averages of the radar samples in each bin, Doppler velocity is averaged in phase space within the Nyquist interval, lidar backscatter is the nearest lidar sample no farther than one minute and 100 metres (inside the range the lidar covers; profiles without any signal do not count and a lidar with fewer than two profiles of signal counts as absent), and microwave radiometer, disdrometer and model data are interpolated with the documented gap limits. Profiles for which a required instrument has no data are left out, and fewer than two common profiles end with the documented exception. The model grid and the model's physically derived wet-bulb temperature agree with the model input.",
  ["inputs", "configurations"], "all combinations of instruments, time and height grids, gaps, masks, altitudes and folded velocities",
  "tests run the pipeline on one synthetic or recorded case and check that it passes a quality checker",
  ["cloudnetpy/categorize/categorize.py", "cloudnetpy/categorize/radar.py", "cloudnetpy/categorize/lidar.py", "cloudnetpy/categorize/model.py", "cloudnetpy/categorize/mwr.py", "cloudnetpy/categorize/disdrometer.py", "cloudnetpy/datasource.py"],
  [("radar rebinning", "Radar.rebin_to_grid"), ("lidar matching", "Lidar.interpolate_to_grid"), ("model interpolation", "Model.interpolate_to_common_height, interpolate_to_grid"), ("gap removal", "categorize._find_valid... / generate_categorize")],
  ["variables of the categorize file"])

p("P09", "Target bits in the categorize file are mutually consistent and physical",
  "In every categorize file the target bits follow from the gridded data by the documented scheme and agree with each other: melting is the layer where the linear depolarisation ratio peaks (or, without one, the fall velocity drops) within the temperature range of the model, smoothed in time, plus transitions from cold to warm falling pixels; cold ('freezing') is exactly the region above the zero-degree level interpolated between melting-layer heights and, where no melting layer is near, the wet-bulb zero level; cloud droplets are narrow strong peaks of lidar backscatter (with a non-negative liquid water path), extended upwards while the radar still detects the cloud, and never colder than -38 C; insects are weak, strongly depolarising or warm narrow-width echoes outside rain, liquid and melting layers; falling hydrometeors are the remaining radar echoes that are not clutter plus lidar echoes from cold ice; aerosol is the remaining lidar signal. Small isolated falling patches and insects next to melting layers or large ice clouds are re-assigned. No decision for one profile uses values beneath a mask, or profiles at the other end of the day, and pixels with neither radar nor lidar signal carry no insect or aerosol bit.",
  ["inputs", "configurations"], "all scenes of clouds, rain, insects, aerosol, melting layers and gaps, with and without the optional instruments",
  "tests feed a few hand-made profiles to single steps; the consistency of the combined result over arbitrary scenes is not checked",
  ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/falling.py", "cloudnetpy/categorize/freezing.py", "cloudnetpy/categorize/insects.py", "cloudnetpy/categorize/melting.py"],
  [("classification", "classify.classify_measurements"), ("droplets", "droplet.find_liquid, correct_liquid_top"), ("falling", "falling.find_falling_hydrometeors"), ("freezing level", "freezing.find_freezing_region"), ("insects", "insects.find_insects"), ("melting", "melting.find_melting_layer")],
  ["category_bits, insect_prob of the categorize file"])

p("P10", "Quality bits report exactly which data and corrections are present",
  "In every categorize file the quality bits report radar and lidar echoes exactly where the corresponding gridded data are unmasked, clutter only for near-zero velocities in the lowest ten gates of rain-free profiles away from cloud and precipitation, and liquid, rain and melting-layer attenuation exactly in the regions in or above the attenuating layer; a pixel is reported as corrected only if the corresponding attenuation value was available and applied. Rain is reported for exactly the profiles where the disdrometer exceeds its rate and particle thresholds, or, where it has no measurement, the radar sees rain near the ground, unless the present weather code (or, without one, the temperature) excludes liquid rain. A pixel never carries a 'corrected' bit without its 'attenuated' bit.",
  ["inputs", "configurations"], "all scenes and instrument combinations, including missing LWP, rain rate or disdrometer data",
  "tests check individual helpers on small arrays",
  ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/attenuation.py", "cloudnetpy/categorize/attenuations/rain_attenuation.py", "cloudnetpy/categorize/attenuations/liquid_attenuation.py", "cloudnetpy/categorize/attenuations/melting_attenuation.py"],
  [("quality bits", "classify.fetch_quality"), ("rain", "classify / Radar rain detection")],
  ["quality_bits, rain_detected of the categorize file"])

p("P11", "Attenuation correction adds up and stays within its physical bounds",
  "The reflectivity in the categorize file equals the gridded measured reflectivity plus the reported two-way gas, liquid, rain and melting-layer attenuation, wherever these are given. Each attenuation is non-negative, zero or absent where its cause is absent, never decreases with height within a profile, and grows with the amount of the attenuating matter (liquid water path, rain rate); gas attenuation integrates the specific attenuation of the model with saturated values inside liquid layers. The reported reflectivity error contains the contributions of all corrections and never decreases when a correction's uncertainty is added.",
  ["inputs", "configurations"], "all scenes, radar frequencies, liquid water paths, rain rates and height grids",
  "tests check small hand-made profiles of single attenuation components only",
  ["cloudnetpy/categorize/attenuation.py", "cloudnetpy/categorize/attenuations", "cloudnetpy/categorize/radar.py"],
  [("gas", "gas_attenuation.calc_gas_attenuation"), ("liquid", "liquid_attenuation.LiquidAttenuation"), ("rain", "rain_attenuation.calc_rain_attenuation"), ("melting", "melting_attenuation.calc_melting_attenuation"), ("applying", "Radar.correct_atten, Radar.calc_errors")],
  ["Z, Z_error, radar_*_atten of the categorize file"])

p("P12", "Results do not depend on what was processed before",
  "Processing the same inputs with the same options gives the same data and metadata (apart from identifiers, timestamps and history) regardless of which other files, instruments, sites or products the same process handled before, in which order, or whether some of those runs failed. Input files are never modified.",
  ["histories", "configurations"], "all sequences of processing calls, including failing ones, within one process",
  "every test runs each function on its own fixture; leaks through module-level state show up only for particular sequences of calls",
  ["cloudnetpy/output.py", "cloudnetpy/metadata.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/instruments", "cloudnetpy/products"],
  [("module-level attribute tables", "ATTRIBUTES / COMMON_ATTRIBUTES dictionaries"), ("instrument descriptions", "instruments.instruments")],
  ["variables, attributes of output files"], state=[("attribute tables", "module-level dictionaries describing variables", "metadata.py and products/*.py"), ("instrument table", "module-level instrument descriptions", "instruments/instruments.py")])

p("P13", "Target classification is the documented function of the category bits",
  "Every pixel of the classification product gets the class that the documented decision table assigns to its category bits (clear sky, droplets, drizzle, drizzle and droplets, ice, ice and droplets, melting, melting and droplets, aerosol, insects, aerosol and insects; radar clutter without aerosol is clear sky), the detection and signal-source status that the table assigns to its quality bits, and the radar attenuation status (none, negligible, moderate from 10 dB, severe above 15 dB or by a large liquid water path or rain rate at W-band, uncorrected, undetected above severe attenuation). Clouds are connected regions of more than 20 pixels of the droplet, drizzle-and-droplet, ice and ice-and-droplet classes; cloud base and top heights are the lowest and highest cloudy gates of each profile, above mean sea level and above ground respectively, masked in cloud-free profiles, and the cloud top status follows the attenuation status of the top gate (4 at the last gate, 0 in cloud-free profiles).",
  ["inputs"], "all combinations of category and quality bits, attenuation values, height grids and profiles",
  "tests evaluate a few bit combinations; the table has 64 x 1024 entries and interacts with missing optional variables",
  ["cloudnetpy/products/classification.py", "cloudnetpy/products/product_tools.py"],
  [("target classes", "classification.generate_classification"), ("detection status", "classification detection status"), ("cloud boundaries", "classification cloud base/top"), ("bits", "product_tools.CategorizeBits")],
  ["target_classification, detection_status, signal_source_status, radar_attenuation_status, cloud_top_height_status, cloud_base_height_amsl, cloud_top_height_amsl, cloud_base_height_agl, cloud_top_height_agl"])

p("P14", "Ice water content and ice effective radius follow their retrieval formula",
  "Ice water content and ice effective radius equal the documented temperature- and reflectivity-dependent formula for the radar's frequency band at every ice pixel (falling and freezing, neither melting nor insect) that has an echo without uncorrected attenuation, including ice above rain, and are masked elsewhere. The retrieval status tells for every pixel whether there is no ice (0), reliable ice (1), ice with uncorrected (2) or corrected (3) attenuation, ice seen by lidar only (4), clear air above rain below freezing (6) or rain or melting that would be ice if colder (7), consistently with which value fields are masked. Error, bias and sensitivity fields agree with their formulas, and errors are present exactly where values are.",
  ["inputs"], "all category/quality bit combinations, reflectivities, temperatures, radar bands and optional-variable combinations",
  "tests use one 2x3 array; status and masking interact over all bit combinations",
  ["cloudnetpy/products/iwc.py", "cloudnetpy/products/ier.py", "cloudnetpy/products/product_tools.py"],
  [("classification of ice", "product_tools.IceClassification"), ("retrieval", "product_tools.IceSource, iwc.generate_iwc, ier.generate_ier")],
  ["iwc, iwc_error, iwc_bias, iwc_sensitivity, iwc_retrieval_status, ier, ier_error, ier_retrieval_status"])

p("P15", "Liquid water content closes with the measured liquid water path",
  "In every profile with a measured liquid water path and detected liquid layers outside rain, the vertically integrated liquid water content equals the measured path (negative paths count as zero) and the profile has the scaled adiabatic shape, increasing linearly with height from the base of each liquid layer with the adiabatic gradient at the base. Liquid water content is never negative and exists only in detected liquid pixels or in the documented upward adjustment of lidar-only cloud tops. The retrieval status distinguishes no water (0), reliable retrieval (1), liquid of a profile whose topmost, lidar-only layer is thinner than the path requires (2), pixels added above it (3) and profiles without a usable path or with rain (4 to 6). Errors follow the documented combination of the gradient and path terms and are present only where a value is.",
  ["inputs"], "all layer geometries, liquid water paths and errors, temperatures, pressures, gaps and rain profiles",
  "tests use one 3x3 field",
  ["cloudnetpy/products/lwc.py", "cloudnetpy/categorize/atmos_utils.py"],
  [("adiabatic", "atmos_utils.calc_adiabatic_lwc, fill_clouds_with_lwc_dz"), ("normalisation and adjustment", "lwc.Lwc, lwc.CloudAdjustor, lwc.LwcError")],
  ["lwc, lwc_error, lwc_retrieval_status"])

p("P16", "Droplet effective radius follows its retrieval formulas and status table",
  "Droplet effective radius and its scaled variant equal the documented functions (Frisch et al. 2002) of reflectivity and liquid water path, integrated over the echoes of each liquid layer separately, for default and user-given parameters; they exist exactly in liquid pixels with an echo (the scaled variant and number concentration only in profiles with a positive measured path) and are positive. Errors follow their formulas and are present exactly where values are. The retrieval status names for each pixel whether there is no retrieval (0), a reliable one (1), a mixed-phase pixel (2), a precipitating profile (3) or ice without retrieval (4).",
  ["inputs"], "all layer geometries, reflectivities, liquid water paths and classification combinations",
  "tests use one small field",
  ["cloudnetpy/products/der.py"],
  [("retrieval", "der.DropletSource / generate_der"), ("status", "der droplet classification")],
  ["der, der_scaled, der_error, der_scaled_error, der_retrieval_status, N_scaled"])

p("P17", "Drizzle retrieval is consistent with its measurements and tables",
  "Drizzle parameters exist exactly in the pixels classified as drizzle with enough signal, agree with the drop-size table entry chosen for the measured radar/lidar ratio and spectral width (corrected for turbulence and beam width), and derived number concentration, liquid water content and flux, fall velocity and vertical wind are consistent with the retrieved diameter and reflectivity through their defining integrals. The retrieval status tells apart no drizzle, drizzle, no-signal, melting, warm-liquid and rain pixels. Pixel-wise errors are present only where values are and are not altered by the order in which they are computed.",
  ["inputs"], "all drizzle scenes, velocities, widths, backscatter and reflectivity values",
  "the tests of this product depend on a look-up table and cover a few synthetic pixels",
  ["cloudnetpy/products/drizzle.py", "cloudnetpy/products/drizzle_tools.py", "cloudnetpy/products/drizzle_error.py"],
  [("retrieval loop", "drizzle_tools.DrizzleSolver"), ("classification", "drizzle_tools.DrizzleClassification"), ("derived products", "drizzle.DrizzleProducts, drizzle.RetrievalStatus"), ("errors", "drizzle_error")],
  ["variables of the drizzle file"])

p("P18", "Turbulent dissipation rates follow their spectral estimates",
  "The dissipation rate from Doppler lidar equals the velocity-variance estimate over the 180 s window around each sample, with the horizontal wind interpolated from the wind product; the one from cloud radar equals the mean, over the wavenumber bands with an inertial-subrange slope, of the spectral estimate over each five-minute window on the 30 s grid with the model wind, and its error is their spread. Both are positive, scale as the cube of the velocity scale, are masked where there are too few valid samples, and are unaffected by adding a constant to the velocities.",
  ["inputs", "configurations"], "all velocity fields, masks, sampling intervals and options",
  "tests check one recorded file",
  ["cloudnetpy/products/epsilon_lidar.py", "cloudnetpy/products/epsilon_radar.py"],
  [("lidar", "epsilon_lidar.generate_epsilon_from_lidar"), ("radar", "epsilon_radar.generate_epsilon_from_radar")],
  ["epsilon of the output"])

p("P19", "Microwave-radiometer files decode to exactly their recorded samples",
  "Converting a day of radiometer raw files gives one sample per distinct recorded timestamp of that date, in ascending order (HATPRO: any one of the samples recorded with the same timestamp; Radiometrics: one per valid zenith record), with liquid water path and water vapour path equal to the recorded values in kg m-2. Samples flagged as low quality are masked, files that are broken, of another date or unusable as a whole do not affect the result, and without any usable liquid-water-path sample of the date the documented exception is raised and no file is written.",
  ["inputs", "fault_sequences"], "all sets of files, format versions, timestamps (unsorted, repeated, across midnight), quality flags, angles and truncated or foreign files",
  "tests convert a few recorded files",
  ["cloudnetpy/instruments/hatpro.py", "cloudnetpy/instruments/rpg_reader.py", "cloudnetpy/instruments/rpg.py", "cloudnetpy/instruments/radiometrics.py"],
  [("binary decoding", "rpg_reader.HatproBinLwp/HatproBinIwv"), ("combination and screening", "hatpro.hatpro2nc"), ("csv decoding", "radiometrics.radiometrics2nc")],
  ["time, lwp, iwv, elevation/azimuth angles of the output"])

p("P20", "Disdrometer telegrams decode to the physical quantities they encode",
  "Converting disdrometer raw data of any supported telegram layout gives one sample per distinct recorded timestamp of the requested date in ascending order (any one of the samples recorded with the same timestamp), and every quantity equals the telegram value in SI units (rain and snow rate in m s-1, temperatures in K, visibility in m, kinetic energy, number concentration, drop spectra with the bin layout unchanged), whatever the order of telegram fields, the order of records and the split into files. Records with a wrong number of fields and foreign lines are skipped without shifting or altering other samples, telegram markers for missing values come out masked, and input without valid samples for the date raises the documented exception.",
  ["inputs", "fault_sequences"], "all telegram layouts and field orders, values, missing markers, dates, broken lines and splits into files",
  "tests convert recorded files; most test data for one instrument are not shipped",
  ["cloudnetpy/instruments/disdrometer", "cloudnetpy/disdronator"],
  [("Parsivel", "disdrometer/parsivel.py, disdronator/parsivel.py"), ("Thies", "disdrometer/thies.py, disdronator/lpm.py"), ("RD-80", "disdrometer/rd80.py, disdronator/rd80.py")],
  ["variables of the disdrometer file, return values of the readers"])

p("P21", "Weather-station and rain-gauge records are converted without loss or shift",
  "Converting weather-station, rain-gauge or present-weather raw files yields one sample per distinct timestamp of the requested date, in ascending order (any one of the records with the same timestamp), with temperature, pressure, humidity, wind, rain rate and visibility equal to the recorded values in SI units and missing values masked. Rainfall amounts recorded by a counter are reported relative to the first value of the day, never decrease, increase by exactly the recorded increments and survive any number of counter resets; without a counter they are the accumulated rain rate. Records of other dates and malformed lines that the format tolerates do not change the result; a malformed line never shifts or alters other records. Without any record of the date the documented exception is raised.",
  ["inputs", "fault_sequences"], "all supported site formats, values, missing markers, duplicated or unsorted timestamps, resets, other-day records and malformed lines",
  "tests convert one recorded file per site",
  ["cloudnetpy/instruments/weather_station.py", "cloudnetpy/instruments/rain_e_h3.py", "cloudnetpy/instruments/fd12p.py", "cloudnetpy/instruments/toa5.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
  [("sites", "weather_station.ws2nc and its readers"), ("accumulation", "CSVFile.normalize_cumulative_amount, calculate_rainfall_amount"), ("gauges", "rain_e_h3.rain_e_h32nc, fd12p.fd12p2nc")],
  ["variables of the output"])

p("P22", "Lidar screening keeps real signal unchanged and removes noise",
  "Converting lidar raw data gives sorted, unique profiles of the requested date (fewer than two ceilometer profiles, or none left, is a ValidTimeStampError) on a height grid equal to altitude plus range times the cosine of the median zenith angle; beta_raw is the instrument's range-corrected backscatter times the requested calibration factor. The screened field beta is everywhere either masked or equal to beta_raw, and with beta_smooth follows the documented screening: signal below five times the background noise of the top gates, weak signal above long runs of negative values, and weak signal above the peak of saturated profiles are removed; pure noise profiles come out without detections and profiles full of sunlight are dropped. CL61 depolarisation is x_pol/p_pol within (0, 1] under the mask of beta. PollyXT keeps pixels whose SNR reaches snr_limit, uses zenith_angle of the site metadata, and falls back to another channel, reporting its wavelength. One conversion never influences another.",
  ["inputs", "configurations"], "all profiles of clouds and noise, lidar types, calibration factors, tilt angles, time orders and background levels",
  "tests convert recorded files and check ranges of values",
  ["cloudnetpy/instruments/ceilo.py", "cloudnetpy/instruments/ceilometer.py", "cloudnetpy/instruments/lufft.py", "cloudnetpy/instruments/cl61d.py", "cloudnetpy/instruments/vaisala.py", "cloudnetpy/instruments/pollyxt.py", "cloudnetpy/instruments/da10.py", "cloudnetpy/instruments/nc_lidar.py"],
  [("noise screening", "ceilometer.NoisyData, Ceilometer.calc_screened_product"), ("conversion", "ceilo.ceilo2nc, pollyxt.pollyxt2nc")],
  ["beta, beta_raw, beta_smooth and coordinates of the output"])

p("P23", "Cloud-radar files convert to calibrated, screened moments on a height grid",
  "Converting raw files of MIRA, RPG-FMCW, BASTA, BOW-TIE, Copernicus, Galileo and MRR-PRO radars gives sorted, unique profiles of the requested date with reflectivity in dBZ (including applied and configured calibration offsets), Doppler velocity in m s-1 with positive upwards, width and depolarisation, rain rate, liquid water and surface meteorology in their documented units, range with the configured offset or correction factor, and height equal to site altitude plus range times the cosine of the median zenith angle. Every unmasked pixel holds the converted raw value. Masked are exactly the pixels that are missing in the raw data or fail the radar's signal-to-noise limit (configured or default), clutter, background, depolarisation or width limits; dropped are exactly the profiles of other dates, repeated times, too little transmit power or a pointing that is not stable near zenith. Without enough valid profiles ValidTimeStampError is raised and unreadable files among several are skipped.",
  ["inputs", "configurations"], "all raw files of the supported radars: values, masks, times, calibration, pointing and status fields, single and multiple files",
  "tests convert recorded files; recorded data of several radars are not shipped with the repository",
  ["cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/copernicus.py", "cloudnetpy/instruments/galileo.py", "cloudnetpy/instruments/basta.py", "cloudnetpy/instruments/bowtie.py", "cloudnetpy/instruments/mrr.py", "cloudnetpy/instruments/rpg.py", "cloudnetpy/instruments/nc_radar.py"],
  [("common steps", "nc_radar.NcRadar, ChilboltonRadar, cloudnet_instrument.CloudnetInstrument"), ("per instrument", "mira2nc, copernicus2nc, galileo2nc, basta2nc, bowtie2nc, mrr2nc, rpg2nc")],
  ["variables of the output"])

p("P24", "Model evaluation resamples observations onto the model grid faithfully",
  "The level-3 product gives, for every model grid box, the mean of exactly the valid observations that fall in that box's time and height window (and, for the advection variant, in the wind-dependent time window of at most an hour around the model time), cloud fraction as the share of cloudy observed pixels (by volume) and of columns with any cloud (by area), and masks boxes without observations. Model fields are converted by their documented formulas, restricted to levels below 22 km, and stay unchanged by the resampling; the cirrus filter scales ice cloud fraction by the detectable share of the assumed ice water content distribution. An existing output file is kept unless overwriting is requested, and models lacking a needed field are rejected.",
  ["inputs", "configurations"], "all observation fields, masks, model grids, wind speeds, products and models",
  "tests use one small field per method",
  ["cloudnetpy/model_evaluation/products"],
  [("grid boxes", "grid_methods.ProductGrid, products/tools.py"), ("model fields", "model_products.ModelManager"), ("observations", "observation_products.ObservationManager"), ("driver", "product_resampling.process_L3_day_product")],
  ["variables of the level-3 file"])

p("P25", "Evaluation statistics agree with their definitions",
  "Relative and absolute error, common-area percentages, value histograms and vertical profiles computed for a model/observation pair equal their definitions over the valid pixels (errors and common area: with model values below the smallest observation left out), ignore masked pixels and whatever value lies below the mask, do not depend on the order of pixels, leave the given fields as they were, and have their defining symmetries: identical fields give zero error and full overlap, and percentages of area stay within 0 to 100.",
  ["inputs"], "all pairs of masked fields",
  "tests evaluate 2x3 arrays",
  ["cloudnetpy/model_evaluation/statistics/statistical_methods.py"],
  [("statistics", "statistical_methods.DayStatistics and functions")],
  ["return values of the statistics functions"])

p("P26", "Figures show exactly the data of the file",
  "generate_figure draws, for any plottable file and any combination of its options, one panel for each requested variable that the file has (in the requested order; unknown ones are skipped, and PlottingError is raised when none is left, when a requested channel does not exist, or when raise_on_empty is set and a variable has no valid data; a model file without data may raise it too).  In a panel of a two-dimensional variable every profile is at its time and every gate at its height (above mean sea level, or above ground if asked), and has the value, colour or class label of the file; masked pixels, classes that are documented as hidden, and gaps in time that are longer than the file type's limit (10 minutes; radar 5, weather radar 20, weather station 12, multi-angle radiometer 35, Doppler lidar 75) are left empty.  In a panel of a one-dimensional variable every valid value is drawn in the documented unit inside the limits of the axis, and the running mean is drawn only where the data are good and never across such gaps.  Title, subtitle, axis labels, units, sources, footer and grid follow the options; the reported Dimensions match the saved picture; the plotted file and its directory stay as they were and no figure is left open.  Likewise figures of model evaluation show each requested field of a level-3 file, one panel per variable and averaging method, with the values of the file, and close all figures.",
  ["inputs", "configurations"], "all file types, variable lists, options, masks, grids and gaps",
  "tests plot recorded complete days with a few options and do not look at the picture",
  ["cloudnetpy/plotting/plotting.py", "cloudnetpy/plotting/plot_meta.py", "cloudnetpy/model_evaluation/plotting/plotting.py"],
  [("figure", "plotting.generate_figure"), ("masks, gaps and units", "plotting.Plot2D, plotting.Plot1D, plotting.SubPlot"), ("figures of model evaluation", "model_evaluation.plotting.plotting.generate_L3_day_plots")],
  ["the figure's artists, the image and the plotted file"])

p("P27", "Vertically pointing weather-radar scans become time-height profiles",
  "Converting OPERA HDF5 files of vertically pointing weather-radar scans (wr2nc) gives exactly one profile for each distinct scan time of the requested date, in time order, whatever the order, duplication or dates of the files; when no scan of the date remains, ValidTimeStampError is raised and no file is written.  Files whose range exceeds 100 km are ignored.  Each profile is the mean over the scan's rays of the values decoded with the file's own gain and offset, with no-data and undetected pixels left out (signal-to-noise ratio and differential reflectivity averaged in linear units); reflectivity is SNR + the calibration constant + 20 log10(range in km); profiles on another range grid are taken from the nearest gate of the longest range and masked outside theirs; a quantity missing from one file is masked in that profile only.  All gates up to the highest of the first ten whose non-raining (velocity at least -1 m/s) mean reflectivity exceeds -10 dBZ are masked as clutter, and pixels with negative SNR are masked as noise; no other pixel is masked or altered.",
  ["inputs"], "all sets of scan files (ranges, gains, offsets, special values, quantities, dates, order)",
  "tests convert one recorded set",
  ["cloudnetpy/instruments/weather_radar.py"],
  [("decoding and averaging", "weather_radar._read_opera_h5"), ("merging of ranges and times", "weather_radar.WeatherRadar._read_data"), ("screening", "weather_radar.WeatherRadar.screen_clutter")],
  ["variables of the output"])

p("P28", "Command-line runs build exactly what was asked for, from the right inputs",
  "For any state of the data portal and of the local directories, one run of the command line does exactly the requested steps and gives each its right inputs.  Each requested instrument product that has raw data is converted once, from all suitable raw files (uploaded or processed, of the site and date; no LV0 files for radar, only lwp and iwv files for mwr, no netCDF files for mwr-l1c; unzipped) of one instrument and no other, by the converter of that instrument's type, with the date, the site's name, latitude, longitude and altitude and the instrument's calibration; the instrument is the first match of the preferences (-i: identifiers and PIDs in any mix, listed or repeated), the one in brackets, the only one, or the one picked at the prompt (an invalid pick converts nothing).  categorize, the products derived from it, mwr-single, mwr-multi, epsilon-radar and l3 products use the files made earlier in the same run where there are such and otherwise the portal's files of the site and date (preferred instruments first; Doppler lidar files of a preferred instrument as lidar); categorize uses mwr, else the portal's mwr-single, mwr, or RPG radar file, gets the given options and the chosen model, and leaves out missing inputs; no step runs without its required input, and every output is a separate file at its documented place whatever the names of the folders.  A file that is already in place is used as it is unless --force-download is given, which replaces it, but never a file made in the same run; --dl only downloads raw data; --plot and --show draw every output once, with the requested variables (else the portal's list) and height limit, next to the output, and go on when there is nothing to plot; unknown products are ignored, and unknown sites and models are rejected before anything is done.",
  ["inputs", "configurations", "histories"], "all requests, portal contents, local files and preferences",
  "no test covers the command line",
  ["cloudnetpy/cli.py"],
  [("instrument products", "cli._process_instrument_product and cli._select_instrument"), ("categorize and later products", "cli.run and cli._process_categorize"), ("files", "cli._fetch_product, cli._fetch_raw, cli._download_product_file")],
  ["arguments and input files of the converters and products, files written"])

p("P29", "Microwave-radiometer files carry measurements and retrievals unchanged",
  "For any HATPRO, LHATPRO or LHUMPRO-U90 measurement, the level 1c conversion hands the radiometer package (mwrpy) the given folder, instrument type, coefficient files, date, time offset and lidar file, and stores every variable the package computed with unchanged values, gaps, dimensions and type of flags; time is in decimal hours of the day, and zenith angles are 90 degrees minus the elevation angles wherever an elevation angle exists, and only there; position is the measured one where there is one and the site's otherwise.  The file names its site, date, radiometer, the lidar used and its history, the coefficient links in their order, the version of the package and its own identifier.  A measurement with no data, more than 90 % flagged brightness temperatures, or (when a date is given) times that do not increase or are not of that date is refused.  The single-pointing, LHUMPRO and multiple-pointing products use exactly the level 1c file, all its coefficients as downloaded (a failed download is an error, never used as coefficients) and the given offset; they contain every retrieved variable unchanged with standard units and names, and date, location, source, identifiers, instrument PID where there is one, and the whole history with their own line first and nothing of the package's attributes.  A retrieval without input or whose water path (single) or temperature (multiple) has no unflagged value is refused with ValidTimeStampError.  Raw and level 1c files are not modified and downloaded coefficients do not stay behind.",
  ["inputs", "configurations"], "all measurements, flags, coefficient sets and download failures",
  "the two tests of level 1c read one stored day each; no test covers the products",
  ["cloudnetpy/instruments/hatpro.py", "cloudnetpy/products/mwr_tools.py"],
  [("level 1c", "hatpro.hatpro2l1c and HatproL1c"), ("products", "mwr_tools._generate_product, Mwr.harmonize, _read_mwrpy_coeffs")],
  ["variables and attributes of level 1c and product files", "arguments of the radiometer package", "exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
