# Registry: property -> harness groups and entries. Bounds are stated per entry.
def E(fn, bounds="", **kw): d = dict(fn=fn, bounds=bounds); d.update(kw); return d
def G(name, harness, src, entries, **kw): d = dict(name=name, harness=harness, src=src, entries=entries); d.update(kw); return d
FO = ["function_objects/function_object.cpp", "function_objects/psf_interpolators.cpp"]
MODEL = ["core/model_object.cpp", "core/convolver.cpp", "core/oversampled_region.cpp", "core/downsample.cpp", "core/psf_oversampling_info.cpp", "core/mp_enorm.cpp", "core/utilities.cpp", "core/mersenne_twister.cpp"] + FO
PROPS = {}
PROPS["P01"] = dict(groups=[G("model", ["p01_model.cpp", "fftw_stub.cpp"], MODEL, [
    E("p01_sum", "1-3 components with 0-2 parameters each in every set layout, images 1x1 to 3x3, all parameter values in [-1e4,1e4], arbitrary component functions (thorough: 4 components, 4x4)", parts=3, tparts=4),
    E("p01_single", "as p01_sum, single-component images", parts=3)])],
    assumptions=["component functions are pure functions of their set-up parameters and the evaluation point", "sums are compared as real arithmetic (tolerance 1e-9 relative)"], outside=["floating-point rounding of the sum", "larger images and component counts"])
PROPS["P08"] = dict(groups=[G("enorm", ["p08_enorm.cpp"], ["core/mp_enorm.cpp"], [
    E("p08_nan", "n<=3 (thorough 4), all doubles with at least one NaN"), E("p08_range", "n<=2 (thorough 3), all doubles up to 1e300", parts=2, tparts=3), E("p08_exact", "n<=2 (thorough 3), elements from the three magnitude ranges and zero, either sign, exact arithmetic", parts=3, tparts=4)])])

PROPS["P02"] = dict(groups=[G("conv", ["p02_conv.cpp", "fftw_stub.cpp"], MODEL, [
    E("p02_convolver", "images 1x1..3x3, PSFs 1x1..3x3 (thorough 4x4), every pixel value, with and without normalisation, two images one after the other", tparts=4, parts=3, reach=["convolved"]),
    E("p02_model", "images 1x1..2x2, PSFs 1x1..3x2 (thorough 3x3 and 4x3), 1-2 components of any value", parts=3, tparts=4, reach=["model"]),
    E("p02_refuse", "PSFs up to 2x2, every double", parts=2, reach=["answered"])])],
    assumptions=["FFTW computes the unnormalised discrete Fourier transform (stand-in harness/fftw_stub.cpp)", "sums compared as real arithmetic (1e-9 relative)"], outside=["rounding of the transforms", "larger images and PSFs"])
PROPS["P03"] = dict(groups=[G("osamp", ["p03_osamp.cpp", "fftw_stub.cpp"], MODEL, [
    E("p03_downsample", "scales 1-3, regions 1x1..3x3 at offsets 1-2, paddings 0-2, every pixel value", parts=3, reach=["downsampled"]),
    E("p03_region", "scales 1-4, regions 1x1..2x3, 1-2 components of any value", parts=4, reach=["region"], ttime=900),
    E("p03_model", "images 2x2..3x4, regions given as text reaching past any edge by one pixel, image offsets 0-3, one or two regions", parts=2, reach=["model"], ttime=900)])],
    assumptions=["FFTW computes the discrete Fourier transform (stand-in harness/fftw_stub.cpp)", "sums compared as real arithmetic"], outside=["larger scales, regions and images"])
PROPS["P05"] = dict(groups=[G("mask", ["p05_mask.cpp", "fftw_stub.cpp", "conv_stub.cpp"], MODEL, [
    E("p05_masked", "images up to 2x2 (thorough 3x2), every mask in both conventions, all seven statistics and error sources, with and without a PSF; masked data: every double of magnitude up to 1e150 and all non-finite ones, masked errors: every double", parts=16, reach=["compared"]),
    E("p05_nonfinite", "as above, unmasked pixels with every non-finite value, with and without a mask", parts=16, reach=["compared"]),
    E("p05_huge", "masked data of magnitude 1e308 to 1.7e308, gain 10", reach=["compared"])])],
    assumptions=["component functions return values in [1,5] at every pixel, unmasked data in [10,1000]"], outside=["larger images"])
PROPS["P06"] = dict(groups=[G("weights", ["p06_weights.cpp", "fftw_stub.cpp"], MODEL, [
    E("p06_supplied", "2-3 pixels (thorough 4), sigmas/variances/weights in [0.01,100], every mask in both conventions", parts=3, reach=["weights"]),
    E("p06_accept", "one pixel (thorough two): every double as data value, error value and mask value", parts=4, reach=["accepted", "refused"]),
    E("p06_data", "2-3 pixels, data-based noise: gain, exposure, read noise (incl. 0), sky (incl. 0) and 1-3 combined images", parts=4, reach=["generated", "refused"]),
    E("p06_model", "the same for model-based noise, through the statistic and the deviates", parts=4, reach=["generated"]),
    E("p06_counts", "2-3 pixels, every mask, Cash and Poisson-MLR", parts=1, reach=["counts"])])],
    assumptions=["weights compared as real arithmetic (1e-9 relative)", "mask values between the documented ones (0..1 exclusive, negative) are not constrained"], outside=["larger images"])
PROPS["P07"] = dict(groups=[G("stats", ["p07_stats.cpp", "fftw_stub.cpp", "conv_stub.cpp"], MODEL, [
    E("p07_chi", "2-4 pixels (thorough 6), every value, with 2x1 and 1x2 PSFs and without, masks", parts=4, reach=["chi"]),
    E("p07_cash", "the same, positive counts, Cash and Poisson-MLR", parts=4, reach=["cash"]),
    E("p07_zero", "2-4 pixels, data equal to the model", parts=1, reach=["zero"]),
    E("p07_finite", "2-4 pixels, data and model of either sign, zero and tiny", parts=4, reach=["finite"]),
    E("p07_negative", "one pixel, zero counts, model in [-10,-1]")])],
    assumptions=["formulas compared as real arithmetic (1e-9 relative)", "Poisson terms m - d ln m + d ln d - d are non-negative (used to pass from |term| to the sum)", "mp_enorm replaced by its definition (decided in P08)"], outside=["larger images"])
PROPS["P16"] = dict(groups=[G("strings", ["p16_strings.cpp", "fftw_stub.cpp"], MODEL, [
    E("p16_trim", "strings of 0-5 (thorough 7) arbitrary bytes", reach=["trim"]), E("p16_split", "strings of 0-4 (thorough 6) arbitrary bytes, delimiters ',', ':' and blanks", reach=["split"]), E("p16_splitadd", "the same, appending", reach=["split"]), E("p16_chop", "strings of 0-5 (thorough 8) arbitrary bytes, '#' and '['", reach=["chop"]),
    E("p16_isnumeric", "strings of 0-4 (thorough 5) bytes, decimal forms", reach=["isnumeric"]), E("p16_notanumber", "strings of 0-4 (thorough 6) arbitrary bytes, every kind", reach=["notanumber"]),
    E("p16_format", "formatted lengths around 0, 1024 and up to 3000 characters, any first and last character", reach=["format"])])],
    assumptions=["strtod accepts the C grammar of decimal numbers"], outside=["longer strings; NUL bytes inside a std::string"])
FILES = ["-include", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "harness", "vx_files.h")]
PROPS["P13"] = dict(groups=[G("config", ["p13_config.cpp", "fftw_stub.cpp"], ["core/config_file_parser.cpp"] + MODEL, [
    E("p13_lines", "files of 0-2 (thorough 3) lines, each in any of 22 well-formed and malformed forms with arbitrary digits, both readers", parts=3, reach=["rejected"]),
    E("p13_section", "a set start, optionally preceded by one line of any form, then 0-2 lines of any form", parts=4, reach=["accepted", "rejected"]),
    E("p13_sets", "two function sets with lines of 13 forms in between", parts=4, reach=["accepted", "rejected"]),
    E("p13_bytes", "one line made of a keyword and 0-4 (thorough 5) arbitrary bytes anywhere in a file", parts=4, reach=["read"])], flags=FILES)],
    assumptions=["text files are read line by line by getline (stand-in harness/vx_files.h)", "strtod accepts the C grammar of decimal numbers"], outside=["longer files and lines", "1-D mode (no Y0 lines)"])
PROPS["P14"] = dict(groups=[G("section", ["p14_section.cpp", "fftw_stub.cpp"], MODEL, [
    E("p14_offset", "four kinds of name, optional extension number or name, optional section whose sides take each of eight forms with every 1-2 (thorough 3) digit positive integer", parts=4, reach=["good", "bad"]),
    E("p14_all", "bracket contents with and without enclosing brackets, sides as above", parts=4, reach=["good", "bad"]),
    E("p14_brackets", "nine malformed bracket structures, every digit", reach=["structure"]),
    E("p14_bytes", "0-5 (thorough 7) arbitrary bytes, five routines", parts=4, reach=["survived"])])],
    assumptions=["integers small enough for int"], outside=["longer strings; directory names containing brackets"])
PROPS["P15"] = dict(groups=[G("cline", ["p15_cline.cpp"], ["core/commandline_parser.cpp", "core/utilities.cpp"], [
    E("p15_tokens", "0-2 (thorough 3) tokens, each of 15 forms (flags, options in both spellings, attached values of 1-2 arbitrary bytes, unknown, lone dashes, empty, positional), both strictness settings", parts=4, reach=["parsed", "error"]),
    E("p15_mixed", "eight fixed tokens around one (thorough two) of any form", parts=2, reach=["parsed", "error"]),
    E("p15_bytes", "a token of 0-4 (thorough 6) arbitrary bytes first, after an option, or after a dash", parts=4, reach=["parsed", "error"]),
    E("p15_dashes", "strings of 0-6 (thorough 8) arbitrary bytes", reach=["stripped"])])],
    assumptions=["'--opt=' with nothing after '=' takes the following token, as before"], outside=["longer tokens and command lines", "the programs' own interpretation of the values"])
PROPS["P17"] = dict(groups=[G("imageinfo", ["p17_imageinfo.cpp", "fftw_stub.cpp"], ["core/imageparams_file_parser.cpp", "core/config_file_parser.cpp"] + MODEL, [
    E("p17_images", "two images with one line each of 38 well-formed and malformed forms (every digit), then one with none", parts=4, reach=["accepted", "rejected"]),
    E("p17_lines", "one image with two lines of different keywords", parts=4, reach=["accepted", "rejected"]),
    E("p17_empty", "0-2 lines without any image start", reach=["rejected"]),
    E("p17_functions", "per-image function sections in either or both of two images, 0-2 (thorough 3) lines of 12 forms, with and without a proper start", parts=4, reach=["accepted", "rejected"]),
    E("p17_desc", "1-3 images, every double, every kind of limit", reach=["described"]),
    E("p17_bytes", "a keyword followed by 0-3 (thorough 5) arbitrary bytes", parts=4, reach=["read"])], flags=FILES)],
    assumptions=["text files are read line by line by getline (stand-in harness/vx_files.h)", "strtod accepts the C grammar of decimal numbers"], outside=["repeated keywords within one image", "keywords with non-numeric values"])
PROPS["P11"] = dict(groups=[
    G("sample", ["p11_stats.cpp"], ["core/statistics.cpp"], [
    E("p11_interval", "samples of 1-4 (thorough 5) values, every finite double", parts=2, reach=["interval"]),
    E("p11_moments", "samples of 1-4 (thorough 6) values in [-1e4,1e4], exact arithmetic", reach=["moments"]),
    E("p11_criteria", "0-500 parameters, up to 1e6 more data points, every likelihood up to 1e9", reach=["criteria"]),
    ]), G("ranks", ["p11_ranks.cpp"], ["core/statistics.cpp"], [
    E("p11_ranks", "every sample size 1-300 (thorough 999)", parts=2, reach=["ranks"])])],
    assumptions=["qsort sorts (stand-in harness/vx_rt.cpp)"], outside=["larger samples", "rounding of sums"])
MULTI = ["core/model_object_multimage.cpp", "core/param_holder.cpp", "core/paramvector_processing.cpp", "core/setup_model_object.cpp"] + MODEL
PROPS["P09"] = dict(groups=[G("boot", ["p09_boot.cpp", "fftw_stub.cpp", "conv_stub.cpp"], MULTI, [
    E("p09_single", "images 1x2, 2x1, 1x3, 3x1 (thorough 2x2), every mask, chi-squared, Cash and Poisson-MLR, with a 1x2 PSF and without; any random draws with at most one rejected", parts=6, reach=["n%d_m%d_p%d" % (s, m, k) for s, n in ((0, 2), (1, 2), (2, 3), (3, 3)) for m in range((1 << n) - 1) for k in range(n) if not (m >> k) & 1]),
    E("p09_multi", "two images (thorough three) of up to two pixels, every mask; any random draws", parts=4, reach=["multi"])])],
    assumptions=["genrand_real2 returns a multiple of 2^-32 in [0,1) (decided in P23)", "statistics compared as real arithmetic (1e-9 relative)"], outside=["larger images, more rejected draws", "unmasked pixels of weight zero"])
PRINTF = ["-include", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "harness", "p10_printf.h")]
PROPS["P10"] = dict(groups=[G("boot", ["p10_boot.cpp", "fftw_stub.cpp"], ["core/bootstrap_errors.cpp"] + MULTI, [
    E("p10_single", "4 iterations (thorough 1-5) with every pattern of failures, 1-2 components in 1-2 sets, none or any one parameter fixed, with and without image offsets and saved lines, chi-squared, Cash and Poisson-MLR, both summary layouts; every fitted value", parts=6, reach=["summary", "few"]),
    E("p10_array", "4 (thorough 5) iterations, every pattern of failures, two sets", parts=2, reach=["array"]),
    E("p10_multi", "1-3 images (thorough 4), 3 (thorough 4) iterations, every pattern of failures, none or any one parameter fixed", parts=4, reach=["summary", "few"])], rflags=PRINTF)],
    assumptions=["the solvers return arbitrary parameters and status (their own guarantees: P20, P21)", "mean, deviation and interval are functions of the values passed (decided in P11)"], outside=["more iterations", "per-image (local) components"])
PROPS["P18"] = dict(groups=[G("transform", ["p18_transform.cpp", "fftw_stub.cpp"], MULTI, [
    E("p18_vectors", "1-3 images, five (thorough seven) layouts of 1-3 components in 1-3 sets, four to eight (thorough twelve) rotation angles per image, all other parameters symbolic in [-500,500], scales in [0.1,10]; through image creation, statistic and deviates, first call and after another vector", parts=4, reach=["vectors"]),
    E("p18_local", "the same layouts with 0-2 (thorough 3) kinds of per-image components in each image, rotations 0 and 30 degrees", parts=4, reach=["local"]),
    E("p18_identity", "2-3 images, unit scale, no rotation, same centre", parts=1, reach=["identity"])])],
    assumptions=["centre coordinates compared as real arithmetic (1e-9 relative)"], outside=["rotation angles other than the listed ones", "more images or sets", "non-positive pixel scales"])
PROPS["P19"] = dict(groups=[G("sum", ["p18_transform.cpp", "fftw_stub.cpp"], MULTI, [
    E("p19_sum", "1-3 images of 1-2 pixels with every mask, own gain and sky, with and without a per-image component; chi-squared, Cash and Poisson-MLR; first call and after another vector", parts=6, reach=["sum"])])],
    assumptions=["statistics compared as real arithmetic (1e-9 relative)", "mp_enorm replaced by its definition (decided in P08)"], outside=["larger images, more images"])
def inc(f): import os; return ["-include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", f)]
PROPS["P12"] = dict(groups=[G("names", ["p12_names.cpp", "fftw_stub.cpp"], ["core/print_results.cpp", "core/print_results_multi.cpp", "core/utilities_multimfit.cpp", "core/statistics.cpp", "solvers/solver_results.cpp"] + MULTI, [
    E("p12_names", "seven (thorough ten) layouts of 1-3 components in 1-3 sets, section offsets in x, y, both and neither; every parameter value", parts=1, reach=["names"]),
    E("p12_print", "the same layouts, printing plain, with errors, and with limits and any one parameter fixed; with and without prefix", parts=2, reach=["print"]),
    E("p12_save", "the same layouts through SaveParameters, SaveParameters2 and PrintResults, with and without errors", parts=2, reach=["save"]),
    E("p12_multi", "1-3 images (thorough 4), every combination of section offsets and per-image components", parts=2, reach=["multi"]),
    E("p12_correct", "the same; parameters unlimited, limited below or on both sides", parts=2, reach=["correct"]),
    E("p12_msave", "1-3 images, saved image-info file, per-image parameter files and main summary, with and without errors", parts=2, reach=["msave"])], rflags=inc("p12_printf.h"))],
    assumptions=["printed numbers are read back as the values handed to the formatting routine (precision of the formats is not part of the property)"], outside=["offset arithmetic inside main() of imfit and imfit-mcmc (not separable from command-line and file input)", "per-image components in the main multimfit summary (documented as missing)"])
FUNCS = ["core/add_functions.cpp", "function_objects/helper_funcs.cpp", "function_objects/helper_funcs_3d.cpp"] + ["function_objects/func_%s.cpp" % f for f in "exp sersic gen-sersic core-sersic gen-exp broken-exp broken-exp2d edge-on-ring edge-on-ring2side flatbar gaussian-ring gaussian-ring2side gaussian-ring-az gaussian moffat king king2 ferrersbar2d flatsky tilted-sky-plane peanut_dattathri edge-on-disk expdisk3d brokenexpdisk3d gaussianring3d ferrersbar3d pointsource pointsource-rot".split()]
PROPS["P24"] = dict(groups=[G("funcs", ["p24_funcs.cpp", "integ_stub.cpp", "fftw_stub.cpp"], FUNCS + MODEL, [
    E("p24_adjust", "all 28 registered functions, slot offsets 0-2, any pixel size in [0.1,10], rotation, intensity scale", parts=2, reach=["adjusted"]),
    E("p24_image", "all 28, any centre, point, parameters, pixel size, rotation and intensity scale; the object fresh, used before, or used before under another image description", parts=14, reach=["image"]),
    E("p24_scale", "all 28, any centre, point and parameters, factor in [0.01,100]", parts=14, reach=["scale"]),
    E("p24_shift", "all 28, any centre, point, parameters and shift up to 500 pixels; fresh or used before", parts=14, reach=["shift"])])],
    assumptions=["values compared as real arithmetic, branches decided as exact real comparisons; libm functions are arbitrary pure functions", "shape parameters in [0.25,4], ellipticities in [0,0.9], sizes in [0.5,100] pixels", "numerical integration is any fixed linear rule (stand-in harness/integ_stub.cpp), the PSF interpolator any pure function"], outside=["floating-point rounding", "accuracy of the line-of-sight integration", "sub-sampling (P25)"])

PROPS["P04"] = dict(groups=[G("history", ["p04_history.cpp", "fftw_stub.cpp", "gsl_stub.cpp"], MULTI, [
    E("p04_stats", "2x1 and 2x2 images, three components of any value, one of eight operations at one parameter vector (thorough: two), then one of nine answers at another; five statistics, with and without PSF and mask", parts=16, reach=["compared"]),
    E("p04_sequences", "the same after two operations, the second at the same or a third vector; 2x1 image, masked, with PSF", parts=16, reach=["compared"]),
    E("p04_regions", "the same with one or two oversampled regions of scale 2", parts=8, reach=["compared"]),
    E("p04_sources", "a point source depending on its interpolator and scale, with and without an oversampled region, up to two operations before", parts=2, reach=["compared"]),
    E("p04_multi", "two images with their own description parameters and a local component, two operations before, three statistics", parts=4, reach=["compared"])])],
    assumptions=["component functions are pure functions of their set-up parameters and the evaluation point, with values in [1000,1001]", "FFTW computes the discrete Fourier transform, GSL splines are pure functions (stand-ins)", "no operation turns bootstrap mode off again; with it on, images are compared, not statistics"], outside=["memory held inside individual image functions (P24)", "longer histories"])
PROPS["P29"] = dict(skip_kinds=["check", "abort"], groups=[G("life", ["p29_life.cpp", "fftw_stub.cpp", "gsl_stub.cpp"], MULTI, [
    E("p29_life", "images 3x2 or 2x3, for fitting or only for model images; no PSF or PSFs 2x1, 1x2, 3x2, 4x4; 0-2 oversampled regions (quick: PSFs and regions not with noise models and Poisson statistics); five statistics; masks; functions before or after the image, mask before or after the errors; destroyed after any step or after one of ten operations", parts=30, time=100, reach=["life"]),
    E("p29_sequence", "the same with two operations", parts=30, reach=["life"], thorough=True),
    E("p29_multi", "1-3 images of different shapes with masks, local components and three statistics, two of five operations", parts=4, reach=["multi"])])],
    assumptions=["FFTW and GSL stand-ins allocate as the libraries do", "only memory errors are judged here: out-of-bounds, use after free, wrong frees, use of uninitialised values"], outside=["leaks", "larger images", "option-file driven set-up"])
PROPS["P25"] = dict(groups=[G("sub", ["p25_sub.cpp", "integ_stub.cpp", "fftw_stub.cpp"], FUNCS + MODEL, [
    E("p25_mean", "all 28 registered functions, every intensity (and every centre where 4 or 9 samples are taken); pixel at 6 offsets from the centre (1-12 pixels), two position angles, sizes below and above one pixel", parts=4, reach=["mean"]),
    E("p25_small", "the 14 sub-sampling functions, every intensity, sizes 1e-300, 1e-12, 0.0078, 0.31 next to the centre", parts=4, reach=["mean"])], fptoint=True)],
    assumptions=["sums compared as real arithmetic (1e-9 relative)", "the sampling rule is the one stated in the comments of CalculateSubsamples (40/size for Gaussian and Moffat, 20/size otherwise, at most 100; 20 within 3 or 4 pixels, 20/r out to 10)"], outside=["other shape-parameter values", "unregistered functions"])
PROPS["P26"] = dict(groups=[G("psf", ["p26_psf.cpp", "gsl_stub.cpp", "fftw_stub.cpp"], ["function_objects/func_pointsource.cpp", "function_objects/func_pointsource-rot.cpp"] + MODEL, [
    E("p26_nodes", "bicubic, Lanczos2, Lanczos3; PSFs 2x2..5x5, every pixel value", reach=["node"]),
    E("p26_outside", "PSFs 2x2..4x4, every point outside", reach=["outside"]),
    E("p26_between", "Lanczos2 and 3, PSFs 2x2..5x5, every pixel value, points between the pixels", reach=["between"]),
    E("p26_options", "both functions, every documented method name and three wrong uses", reach=["options"]),
    E("p26_model", "PSFs 4x4..5x5, every pixel value and flux, one or two sources with any combination of methods, full and single-function images", parts=4, reach=["model"]),
    E("p26_osamp", "5x5 PSF, 4x4 oversampled PSF of scale 2, evaluated twice", reach=["osamp"]),
    E("p26_inside", "the same, source inside the region")])],
    assumptions=["GSL's bicubic spline reproduces its nodes and is any function between them (stand-in harness/gsl_stub.cpp)", "values compared as real arithmetic (1e-9 relative)"], outside=["accuracy of the interpolation between pixels", "PSFs of one row or column", "rotation angles other than the identity"])
PROPS["P23"] = dict(groups=[G("rng", ["p23_rng.cpp"], [], [
    E("p23_draw", "12 positions of the state, every state", reach=["draw"]),
    E("p23_renew", "every state; every 13th word of the renewed state at every offset (thorough: all in one path)", reach=["renew"]),
    E("p23_ranges", "all six generators, every state", reach=["ranges"]),
    E("p23_ends", "both ends of five generators", reach=["end_%d_%d" % (a, b) for a in (0, 1) for b in range(5)]),
    E("p23_seed", "every 32-bit seed (plain and in keys of 1-3 words), every earlier state", reach=["seed"])])],
    assumptions=[], outside=["statistical quality of the streams", "GSL's generator behind imfit-mcmc"])
SUPP = [x for x in MODEL if x not in ("core/utilities.cpp", "core/mersenne_twister.cpp")]
DE = ["solvers/DESolver.cpp", "core/mersenne_twister.cpp"]
PROPS["P20"] = dict(groups=[G("de", ["p20_de.cpp"], DE, [
    E("p20_trial", "all 10 strategies, 1-2 parameters with either or none fixed, 6 members of any value and energy, any draws (each integer draw in turn at the end of its interval)", parts=8, reach=["trial"]),
    E("p20_best", "one generation of 3 members, every energy", reach=["best"]),
    E("p20_memory", "construction, set-up, destruction", reach=["memory"])], intra=True),
  G("round", ["p20_round.cpp"], ["solvers/DESolver.cpp"], [
    E("p20_uniform", "all limits up to 1e6, every draw", reach=["uniform"]),
    E("p20_init", "6 pairs of limits, 3-6 members, both samplings, every draw", reach=["init"]),
    E("p20_reinsert", "6 pairs of limits, members at the limits and the middle, every draw", reach=["reinsert"])]),
  G("mpfit", ["p20_mpfit.cpp"], ["solvers/mpfit.cpp"], [
    E("p20_mpfit", "2 (thorough 1-3) parameters with no, one or two limits each and any one fixed, starting on or between the limits; the first one's step any value of [-1e3,-1.1], [-0.4,-1e-3], 0, [1e-3,0.4] or [1.1,1e3], the others' one of 4 values; each evaluation's norm one of 5; one (two) trials", parts=8, reach=["mpfit"]),
    E("p20_reject", "five wrong set-ups, every starting value", reach=["reject"])], intra=True),
  G("fits", ["p20_fits.cpp", "fftw_stub.cpp"], ["solvers/levmar_fit.cpp", "solvers/nmsimplex_fit.cpp", "solvers/nlopt_fit.cpp", "solvers/diff_evoln_fit.cpp", "solvers/dispatch_solver.cpp", "solvers/solver_results.cpp", "core/utilities.cpp", "core/mersenne_twister.cpp", "solvers/DESolver.cpp"] + SUPP, [
    E("p20_nlopt", "Nelder-Mead and all six NLopt algorithms, 1-3 parameters with any limits, one fixed; two fits in a row", parts=2, reach=["nlopt"]),
    E("p20_levmar", "1-3 parameters, any limits, one fixed; any result of the solver", reach=["levmar"])]),
  G("defit", ["p20_defit.cpp", "fftw_stub.cpp"], ["solvers/diff_evoln_fit.cpp", "solvers/DESolver.cpp", "solvers/solver_results.cpp"] + MODEL, [
    E("p20_defit", "1-2 parameters, none or one fixed (also all), seed 7, finite, huge and NaN objective: whole fits", reach=["defit"]),
    E("p20_nolimits", "missing limits, every starting value", reach=["nolimits"])])],
    assumptions=["NLopt itself keeps to the limits it is given", "steps of the Levenberg-Marquardt linear algebra lie in the ranges of p20_mpfit", "comparisons of trial values decided as exact reals in p20_trial and p20_mpfit; p20_uniform, p20_init and p20_reinsert are bit-precise"], outside=["points at which derivatives are evaluated may lie one step outside a limit", "the linear algebra of Levenberg-Marquardt"])
_G20 = {g["name"]: g for g in PROPS["P20"]["groups"]}
def _only(g, names):
    return dict(g, entries=[e for e in g["entries"] if e["fn"] in names])
PROPS["P21"] = dict(groups=[_only(_G20["de"], ["p20_best"]), _only(_G20["mpfit"], ["p20_mpfit", "p20_reject"]), _only(_G20["fits"], ["p20_nlopt", "p20_levmar"]), _only(_G20["defit"], ["p20_defit"]),
  G("results", ["p21_results.cpp"], ["solvers/solver_results.cpp"], [E("p21_results", "1-4 parameters, any stored values, stored once or again with another number of parameters", reach=["results"])])],
    assumptions=["NLopt returns the best point it evaluated and its value", "as in P20"], outside=["values of the errors themselves (covariance inversion)", "the number of evaluations of differential evolution, which counts whole generations"])
PROPS["P27"] = dict(groups=[G("memory", ["p27_memory.cpp", "fftw_stub.cpp"], ["core/estimate_memory.cpp", "solvers/mpfit.cpp"] + MODEL, [
    E("p27_main", "every number of columns up to 600 (thorough 20000); 1, 501 or 100000 rows; no PSF or PSFs of 1, 51 or 1025 columns and as many or 3 rows; 1 or 7 free parameters; every combination of options; each dimension or option grown in turn", parts=8, reach=["main"]),
    E("p27_region", "0-2 regions up to 6000 x 3005 pixels, scales 1-31, PSFs of 1-100 (thorough 2000) columns", parts=3, reach=["region"]),
    E("p27_alloc", "images 2x3 to 4x4, with or without PSF and oversampled region, four statistics, two kinds of solver, outputs: every array of doubles really allocated", parts=4, reach=["alloc"]),
    E("p27_psf", "PSFs of 1-60 columns", reach=[]), E("p27_other", "1-600 columns", reach=[])], rflags=["-include", "p27_rec.h"], overflow=True)],
    assumptions=["the memory of FFTW plans, GSL splines and strings is not counted (nor in the estimate)"], outside=["bootstrap indices", "per-thread copies"])
PROPS["P28"] = dict(groups=[G("flux", ["p28_flux.cpp", "integ_stub.cpp", "fftw_stub.cpp"], FUNCS + MODEL, [
    E("p28_model", "1-2 (thorough 3) components of any value, background or not, knowing their flux or not, 1-2 parameters, every set layout; images 1x1 to 3x3; fresh or used models", parts=4, reach=["model"]),
    E("p28_own", "Exponential, Gaussian, Sersic, PointSource, PointSourceRot: every parameter value, fresh, used before or oversampled, alone and in a model", parts=2, reach=["own"])])],
    assumptions=["sums and closed forms compared as real arithmetic", "the gamma function, exp and pow are arbitrary pure functions", "shape parameters as in P24"], outside=["the value of the Sersic flux integral itself", "the printed table"])
PROPS["P32"] = dict(groups=[G("profile", ["p32_profile.cpp", "fftw_stub.cpp"], ["profile_fitting/model_object_1d.cpp", "profile_fitting/convolver1d.cpp"] + MODEL, [
    E("p32_profile", "2-4 (thorough 5) points, PSFs of 0-3 (4) points, 1-2 (3) components of any value in 1 or 2 sets, with or without magnitudes, 4 masks in both conventions or a non-finite point, no errors, sigmas or variances; two evaluations in a row, the second also through the statistic or resampled", parts=4, reach=["profile"])])],
    assumptions=["FFTW computes the discrete Fourier transform (stand-in)", "sums compared as real arithmetic; the norm of the deviates is the subject of P08", "evenly spaced abscissae"], outside=["magnitudes together with a PSF", "single-point profiles with a PSF"])
