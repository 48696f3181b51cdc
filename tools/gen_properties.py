#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": state or [], "observe_at": observe or [], "hook_needed": None}})

prop("P01", "Model image is the sum of its components at each pixel's coordinates",
 "For any list of image components grouped into sets that share a centre, any parameter values and any image size (square or not), pixel (column c, row r) of the computed model image equals the sum over all components of that component's value at 1-based coordinates x=c, y=r, each component having been set up with exactly its own slice of the parameter vector and the X0,Y0 of its own set. No pixel is skipped, transposed, duplicated or left with an earlier value, and the parameter vector is not modified.",
 ["inputs", "configurations"], "all component counts/sets/parameter counts, all image shapes, all parameter values, all component value functions",
 "Tests compare a handful of rendered images with stored references; a slice/centre/index mix-up for other set layouts or non-square shapes is not exercised.",
 ["core/model_object.cpp", "core/model_object.h"],
 [("DefineFunctionSets / fsetStartFlags decide when a new X0,Y0 pair is consumed", "core/model_object.cpp:DefineFunctionSets"), ("per-pixel Kahan summation over components", "core/model_object.cpp:CreateModelImage")],
 ["ModelObject::GetModelImageVector", "ModelObject::GetSingleFunctionImage"])
prop("P02", "PSF convolution equals the linear convolution of the expanded model",
 "For any image shape and PSF shape (odd or even, square or not), the model image returned with a PSF attached equals, pixel by pixel up to floating-point rounding, the discrete linear convolution of the component sum (evaluated on an area extended by the full PSF size on every side) with the normalised PSF, centred on the PSF's central pixel. Padding never wraps intensity from one edge to the opposite one, and the PSF supplied by the caller is used normalised to unit sum exactly when normalisation is requested.",
 ["inputs", "configurations"], "all image/PSF dimensions and pixel values",
 "Existing tests use a few square PSFs and compare rounded stored images.",
 ["core/convolver.cpp", "core/model_object.cpp"],
 [("zero padding and PSF shift-wrap around the origin", "core/convolver.cpp:ShiftAndWrapPSF"), ("model border of nPSFColumns/nPSFRows, then crop", "core/model_object.cpp:CreateModelImage")],
 ["Convolver::ConvolveImage", "ModelObject::GetModelImageVector"])
prop("P03", "Oversampled regions replace exactly their pixels by block means",
 "For any oversampling scale and any rectangular sub-region of the image (square or not, anywhere inside the image), the pixels inside the region are replaced by the mean of the scale x scale oversampled pixels that cover them, evaluated at the correct sub-pixel coordinates, and every pixel outside the region keeps its value. No memory outside the image or the oversampled buffer is read or written.",
 ["inputs", "configurations"], "all scales, region positions/shapes, image sizes, PSF paddings and pixel values",
 "Tests only use square regions, where swapped row/column counts are invisible.",
 ["core/downsample.cpp", "core/oversampled_region.cpp", "core/psf_oversampling_info.cpp"],
 [("index arithmetic of DownsampleAndReplace", "core/downsample.cpp"), ("sub-pixel start coordinates", "core/oversampled_region.cpp:ComputeRegionAndDownsample")])
prop("P04", "Model evaluation has no memory of earlier evaluations",
 "The model image and the fit statistic produced for a parameter vector depend only on that vector, the data and the model description: evaluating any other parameter vectors, single-component images, statistics or bootstrap mode on/off before it does not change the result. This holds with and without a PSF, with point sources, and with oversampled regions.",
 ["histories", "inputs"], "all sequences of prior evaluation calls and parameter vectors",
 "Tests build a fresh model, evaluate once and compare; stale cached state only shows in longer call histories.",
 ["core/model_object.cpp", "core/oversampled_region.cpp", "function_objects/func_pointsource.cpp", "function_objects/func_pointsource-rot.cpp"],
 [("per-evaluation re-initialisation of component state", "core/model_object.cpp:CreateModelImage")])
prop("P05", "Masked pixels never influence a fit",
 "Whatever value a masked pixel holds in the data image or in the supplied error image (including NaN, infinity, negative or zero), the fit statistic, the vector of deviates, the number of valid pixels and the acceptance of the data set are the same as for any other value of that pixel, for chi-squared, Cash and Poisson-MLR statistics. A non-finite unmasked data pixel is either excluded in the same way or makes setup fail; it never yields a non-finite statistic silently.",
 ["inputs", "configurations"], "all mask patterns, pixel values and statistics",
 "Tests use one or two masks with ordinary finite data values.",
 ["core/model_object.cpp"],
 [("ApplyMask multiplies/zeroes weights", "core/model_object.cpp:ApplyMask"), ("VetDataVector", "core/model_object.cpp:VetDataVector")])
prop("P06", "Weights are built as documented from errors, data and mask",
 "For every pixel the internal weight is 1/sigma for supplied sigmas, 1/sqrt(variance) for variances, the square root of supplied inverse-variance weights, and for internally generated Gaussian noise is derived from gain, read noise, combined exposures and the original sky level, with background-free non-positive cases clamped so the weight stays finite. Mask convention (zero-is-good / zero-is-bad) selects exactly the documented pixels, bad pixels get weight zero, the valid-pixel count equals the number of pixels with good mask, and setup fails rather than accept a non-finite or negative weight at an unmasked pixel.",
 ["inputs", "configurations"], "all pixel/err/mask values, all error types and mask formats, any order of supply",
 "Tests sample 4-pixel images with friendly values.",
 ["core/model_object.cpp"],
 [("AddErrorVector, GenerateErrorVector, AddMaskVector, ApplyMask, VetErrorVector, FinalSetupForFitting", "core/model_object.cpp")])
prop("P07", "Fit statistics and deviates equal their documented formulas",
 "For any data, model and weights, chi-squared is the sum over valid pixels of (weight*(data-model))^2, the Cash statistic is 2*sum(weight*(model - data*ln(model))) in counts, and the Poisson-MLR statistic is the Cash statistic plus its model-independent terms and is zero when model equals data; zero or negative model pixels never produce NaN. The sum of squares of the deviates vector passed to the least-squares solver equals the reported statistic for chi-squared and Poisson-MLR.",
 ["inputs", "configurations"], "all data/model/weight vectors, gains and statistics",
 "Unit tests check one small vector per statistic.",
 ["core/model_object.cpp", "core/mp_enorm.cpp"],
 [("ChiSquared, CashStatistic, ComputePoissonMLRDeviates, ComputeDeviates", "core/model_object.cpp")])
prop("P08", "The Euclidean norm used by the solvers is robust",
 "For every vector of finite doubles the norm routine reads only the given elements and returns a non-negative number between the largest absolute element and the sum of absolute elements (up to rounding), without avoidable overflow or underflow, and it is zero only for the zero vector. If any element is NaN the result is NaN, so that a failed model evaluation cannot look like a good fit.",
 ["inputs"], "all vectors of doubles up to the bound, all magnitudes",
 "Tests use a few ordinary magnitudes; the giant/dwarf branches and NaN propagation are not covered.",
 ["core/mp_enorm.cpp"], [("three-accumulator scaled sum", "core/mp_enorm.cpp:mp_enorm")])
prop("P09", "Bootstrap resampling draws only from valid pixels, in-bounds",
 "In bootstrap mode, for any mask and any random draws, every resampled index refers to an unmasked pixel of the image, the number of resampled pixels equals the number of valid pixels, each valid pixel can be drawn, and statistics and deviates computed in this mode use exactly the resampled pixels. For multi-image fits each image's resampled deviates occupy consecutive, non-overlapping slots of the output that exactly fill it.",
 ["inputs", "schedules", "configurations"], "all masks, all random-number outcomes including the extreme ones",
 "Tests use one seed; the extreme random values and masked multi-image layouts are never reached.",
 ["core/model_object.cpp", "core/model_object_multimage.cpp", "core/bootstrap_errors.cpp", "core/mersenne_twister.cpp"],
 [("UseBootstrap / MakeBootstrapSample", "core/model_object.cpp"), ("genrand_real2-based index", "core/model_object.cpp:MakeBootstrapSample")])
prop("P10", "Bootstrap summaries use only successful, correctly aligned samples",
 "The means, standard deviations and confidence intervals reported after bootstrap resampling are computed from the parameter values of exactly the iterations whose fit succeeded, for the right parameter, with best-fit values and samples expressed in the same coordinate system. Failed iterations contribute nothing.",
 ["inputs", "histories", "configurations"], "all patterns of failing iterations, parameter counts, fixed flags and image offsets",
 "No test makes a bootstrap iteration fail.",
 ["core/bootstrap_errors.cpp", "core/statistics.cpp"],
 [("BootstrapErrors / BootstrapErrorsArrayOnly / PrintBootstrapSummary", "core/bootstrap_errors.cpp")])
prop("P11", "Statistics helpers match their definitions for every sample",
 "Mean and sample standard deviation match the textbook definitions, the 68.3% confidence interval is an ordered pair of actual sample values whose rank span matches the definition and does not depend on input order, and AIC-corrected and BIC equal their published formulas, for every sample size the callers can produce.",
 ["inputs"], "all sample vectors up to the bound and all counts",
 "Unit tests use a handful of vectors.",
 ["core/statistics.cpp"], [("Mean, StandardDeviation, ConfidenceInterval, AIC_corrected, BIC", "core/statistics.cpp")])
prop("P12", "Parameter names, offsets and printing line up with the components",
 "For any arrangement of components into sets, the model's parameter list has, per set, X0 and Y0 followed by the components' own parameters in order; every printed or headed parameter line shows the value (and error) that belongs to that name, with the image-section offset added exactly once to X0/Y0 entries only. Round-tripping offsets through a fit never shifts other parameters.",
 ["inputs", "configurations"], "all component/set layouts, parameter values and offsets",
 "Tests print a few fixed models.",
 ["core/model_object.cpp", "core/print_results.cpp"],
 [("PopulateParameterNames, PrintModelParamsToStrings, GetParameterNames, GetImageOffsets, GetParamHeader", "core/model_object.cpp")])
prop("P13", "Model-description parsing is safe and faithful for every input",
 "For any sequence of lines, reading the component section of a configuration file either reports an error or yields names, labels, set boundaries, values and limits that are mutually consistent in length and equal to what the lines state; it never reads outside its input, crashes or invents values. A parameter whose lower limit is not below its upper limit, or whose value lies outside its limits, is rejected.",
 ["inputs"], "all line sequences up to the bound (missing values, keywords in last position, missing names, empty limits)",
 "Tests feed about twenty hand-written files.",
 ["core/config_file_parser.cpp", "core/utilities.cpp"],
 [("VetConfigFile, ValidParameterLine, AddParameterAndLimits, ParseFunctionSection", "core/config_file_parser.cpp")])
prop("P14", "Image-section suffixes give the right pixel offsets",
 "For any file-name argument with an optional bracketed section, the offset and coordinates returned are those of the section's lower-left corner (1 for '*' or no section), for positive integers in any position; malformed sections give the documented error value. No input, of any length, makes the routines read outside the string or abort.",
 ["inputs"], "all strings up to the bound",
 "Tests use ten well-formed strings.",
 ["core/utilities.cpp"], [("DetermineImageOffset, GetPixelStartCoords, GetStartCoordsFromBracket, GetAllCoordsFromBracket, StripBrackets", "core/utilities.cpp")])
prop("P15", "Command-line parsing assigns every token its documented meaning",
 "For any argument vector, recognised flags and options (short, long and queue options) are set with exactly the following or '='-attached value, unrecognised options and missing values are reported as errors, and remaining tokens are positional arguments in order. No argument vector, including empty strings and lone dashes, makes the parser read outside its input or abort.",
 ["inputs"], "all argument vectors up to the bound",
 "Tests use around thirty command lines.",
 ["core/commandline_parser.cpp"], [("CLineParser::ParseCommandLine", "core/commandline_parser.cpp")])
prop("P16", "String utilities are total and do what they say",
 "Trimming removes exactly leading and trailing whitespace, splitting returns exactly the maximal delimiter-free pieces in order, comment chopping removes exactly from the first comment character on, and the numeric-string predicates accept exactly the documented forms. These hold for every string, including empty, one-character and all-blank ones, and formatted output of any length is returned intact.",
 ["inputs"], "all strings up to the bound; all formatted lengths up to the bound",
 "Tests use fixed example strings.",
 ["core/utilities.cpp"], [("TrimWhitespace, SplitString, ChopComment, IsNumeric, NotANumber, PrintToString", "core/utilities.cpp")])
prop("P17", "Image-information parsing for multi-image work is safe and faithful",
 "For any sequence of lines in an image-information file, parsing either reports an error or stores each stated value in the field its keyword names, with fixed/limits status as documented; values of one image never leak into another. Malformed values (missing numbers, missing second element) never cause reads outside the input.",
 ["inputs"], "all line sequences up to the bound",
 "Tests use a few well-formed files.",
 ["core/imageparams_file_parser.cpp"], [("VetInputLines, StoreInfoFromLine, GetParameterAndLimits, GetImageDescriptionParams", "core/imageparams_file_parser.cpp")])
prop("P18", "Per-image parameter vectors are the documented transform of shared ones",
 "In a multi-image model, the parameter vector handed to each image consists of the shared component parameters with centre positions shifted, rotated and scaled by that image's description and with its own local parameters, in the right order and without touching other entries; for the reference image it is the shared vector itself. Rotation by 0 with unit scale and no shift is the identity.",
 ["inputs", "configurations"], "all numbers of sets/components/images and all parameter values",
 "Tests use two fixed models.",
 ["core/param_holder.cpp", "core/paramvector_processing.cpp", "core/model_object_multimage.cpp"],
 [("ParamHolder, AssembleParamsForImage, CalculateOffset_X0Y0", "core/paramvector_processing.cpp")])
prop("P19", "Multi-image statistic is the sum over images",
 "The statistic of a multi-image model equals the sum over images of that image's own statistic at its own transformed parameters, its deviates vector is the concatenation of the images' deviates in order with every slot written exactly once, and its valid-pixel count is the sum of the images' counts.",
 ["inputs", "configurations"], "all numbers of images, masks and data",
 "Tests use two images with default weights.",
 ["core/model_object_multimage.cpp"], [("GetFitStatistic / ComputeDeviates loops", "core/model_object_multimage.cpp")])
prop("P20", "Fits respect parameter limits and fixed parameters",
 "For any objective function, limits, starting values inside them and random draws, every parameter vector evaluated by the differential-evolution solver and every accepted or returned vector of the Levenberg-Marquardt solver lies inside the limits, and fixed parameters keep their starting value bit for bit in every evaluation and in the result. The limits handed to the external optimisers are exactly the user's limits.",
 ["inputs", "schedules", "configurations"], "all objective values, limits, starting points and random outcomes within the bounds",
 "Tests run a few well-behaved fits with one seed.",
 ["solvers/mpfit.cpp", "solvers/DESolver.cpp", "solvers/diff_evoln_fit.cpp", "solvers/nmsimplex_fit.cpp", "solvers/nlopt_fit.cpp", "solvers/levmar_fit.cpp"],
 [("step clipping and boundary snapping", "solvers/mpfit.cpp:mpfit"), ("trial re-insertion", "solvers/DESolver.cpp:Solve")])
prop("P21", "Reported fit results describe the returned parameters",
 "After a fit, the reported best-fit statistic is the value of the objective at the returned parameter vector, that value is no worse than the value at any accepted point, and per-parameter errors are stored at the index of their own parameter with zero for fixed ones. Results copied out of a results object equal those copied in.",
 ["inputs", "histories"], "all objective functions/values within the bound",
 "Tests compare printed text of a few successful fits.",
 ["solvers/mpfit.cpp", "solvers/solver_results.cpp", "solvers/DESolver.cpp", "solvers/levmar_fit.cpp", "solvers/diff_evoln_fit.cpp"],
 [("bestnorm bookkeeping", "solvers/mpfit.cpp"), ("bestSolution/bestEnergy", "solvers/DESolver.cpp"), ("SolverResults", "solvers/solver_results.cpp")])
prop("P22", "MCMC chains stay in bounds and follow the Metropolis rule",
 "For any likelihood function and any random draws, every stored chain state lies inside the parameter limits with locked parameters unchanged, is either the previous state or the proposal, is never a proposal of zero likelihood, and carries the likelihood of that very state; proposals at least as likely as the current state are always accepted. Chain, crossover and history indices always stay inside their arrays.",
 ["inputs", "schedules", "histories"], "all likelihood values and random outcomes for the bounded number of chains/generations",
 "MCMC tests run one seed and compare text.",
 ["cdream/dream.cpp", "cdream/gen_CR.cpp", "cdream/dream_initialize.cpp", "cdream/check_outliers.cpp"],
 [("bounds check, acceptance step", "cdream/dream.cpp:dream")])
prop("P23", "Random-number generators stay in their stated ranges",
 "For every internal generator state, the uniform generators return values in exactly their documented interval (closed, half-open or open), integer and shuffle helpers return every value of their range and nothing outside it, and re-seeding with the same seed reproduces the same stream from any prior state.",
 ["inputs", "histories"], "all generator states and seeds",
 "Tests look at a few draws from fixed seeds.",
 ["core/mersenne_twister.cpp", "cdream/include/rng/RngStream.h", "solvers/DESolver.cpp"],
 [("genrand_*", "core/mersenne_twister.cpp")])
prop("P24", "Image functions are consistent under position, scale and history",
 "For every built-in image function: setting it up twice or after other parameters gives the same values as a fresh one; its brightness is proportional to its intensity parameters; shifting centre and evaluation point together by whole pixels leaves the value unchanged; and the multi-image size, rotation and intensity adjustments applied internally equal evaluating with explicitly adjusted parameters. Its number of parameters, names and the slots it reads agree.",
 ["inputs", "histories", "configurations"], "every registered image function; all parameter values and pixel positions",
 "Tests evaluate each function at a few points.",
 ["function_objects/", "core/add_functions.cpp"],
 [("Setup/GetValue/AdjustParametersForImage of each function", "function_objects/func_*.cpp"), ("PopulateFactoryMap", "core/add_functions.cpp")])
prop("P25", "Pixel sub-sampling averages evenly spaced sub-pixel samples",
 "When sub-sampling is on, every image function that sub-samples returns the mean of its point values on a regular N x N grid centred in the pixel, with N a bounded positive number chosen by its documented rule, and never divides by zero or loops without bound whatever its size parameters; when off it returns the point value at the pixel centre.",
 ["inputs", "configurations"], "every sub-sampling image function, all radii and size parameters",
 "Tests evaluate default cases only.",
 ["function_objects/"], [("CalculateSubsamples / GetValue", "function_objects/func_*.cpp")])
prop("P26", "Point sources reproduce the PSF image at its own pixel grid",
 "A point source interpolated from a PSF image (bicubic or Lanczos) returns exactly the PSF pixel value times total flux when the offset from the source centre falls on a PSF pixel centre, for PSFs of any shape, is zero outside the PSF's area, and never reads outside the PSF array. Optional interpolation names accepted by the function select that interpolation.",
 ["inputs", "configurations"], "all PSF shapes/values, offsets and interpolation kinds",
 "Tests use square symmetric PSFs for which a transposed lookup is invisible.",
 ["function_objects/psf_interpolators.cpp", "function_objects/func_pointsource.cpp", "function_objects/func_pointsource-rot.cpp"],
 [("PsfInterpolator_lanczos2/3::GetValue, bicubic", "function_objects/psf_interpolators.cpp")])
prop("P27", "Memory-use estimates never overflow or under-count",
 "For all realistic image, PSF and oversampling dimensions the estimated memory is computed without integer overflow, is positive, never decreases when any dimension or option grows, and is at least the size of the arrays that the fit really allocates.",
 ["inputs"], "all dimensions in the stated ranges",
 "Tests check three sizes.",
 ["core/estimate_memory.cpp"], [("EstimateMemoryUse and helpers", "core/estimate_memory.cpp")])
prop("P28", "Component fluxes and fractions add up",
 "Requested component fluxes are written for every component, including background ones, the total is the sum of the non-background components' fluxes, and a component that can compute its own flux reports the same number whether asked alone or within a model.",
 ["inputs", "configurations"], "all component lists and values",
 "Tests use two models.",
 ["core/model_object.cpp"], [("FindTotalFluxes", "core/model_object.cpp")])
prop("P29", "Model and fit objects use only initialised, in-bounds memory",
 "Creating a model (single- or multi-image), adding data, masks, errors, PSFs and oversampled regions, evaluating it, and destroying it never uses uninitialised memory, reads or writes outside an array, or frees memory wrongly, for any supported call order and shape.",
 ["inputs", "histories", "configurations"], "all call orders and shapes within the bound",
 "Tests run without sanitizers and only in one call order.",
 ["core/model_object.cpp", "core/model_object_multimage.cpp", "core/setup_model_object.cpp"],
 [("constructors/destructors and *_allocated flags", "core/model_object.cpp")])
prop("P30", "Auxiliary-image checks reject mismatched inputs",
 "Setting up a model from user options accepts mask, error and PSF images only when their dimensions are consistent with the data image, passes every image to the model with rows and columns in the right order, and returns an error status otherwise.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of present/absent images, sizes and read failures",
 "Tests use matching images.",
 ["core/getimages.cpp", "core/setup_model_object.cpp", "core/store_psf_oversampling.cpp"],
 [("GetAndCheckImage, GetMaskAndErrorImages, GetPsfImage, GetOversampledPsfInfo", "core/getimages.cpp")])
prop("P31", "Parallel evaluation gives the serial result for every schedule",
 "For any number of threads and any assignment of loop iterations to threads, the model image, deviates and statistics equal those of serial execution, because no iteration writes memory that another one reads or writes (apart from declared sum reductions).",
 ["schedules", "inputs"], "all thread counts and interleavings within the bound",
 "Tests compare outputs for at most two thread counts on one machine.",
 ["core/model_object.cpp", "core/convolver.cpp", "core/oversampled_region.cpp"],
 [("OpenMP parallel-for loops with private state", "core/model_object.cpp")])
prop("P32", "1-D profile models add components and convolve correctly",
 "For profile fitting, the model profile at each abscissa is the sum of the components there, PSF convolution equals discrete convolution with the normalised kernel on an interval extended by the kernel size, and statistics count exactly the unmasked points.",
 ["inputs", "configurations"], "all profile lengths, kernels and values within the bound",
 "The 1-D programs have three text-comparison tests.",
 ["profile_fitting/model_object_1d.cpp", "profile_fitting/convolver1d.cpp"], [("CreateModelImage / Convolver1D::ConvolveProfile", "profile_fitting/")])
prop("P33", "FITS images survive a write/read round trip",
 "Writing a model image to a FITS file and reading it back gives the same dimensions and pixel values, and read errors are reported rather than returning an image.",
 ["inputs", "fault_sequences"], "all image shapes/values and I/O faults",
 "Tests read a few files.",
 ["core/image_io.cpp"], [("ReadImageAsVector, SaveVectorAsImage", "core/image_io.cpp")])
prop("P34", "Minimisers converge to a local optimum of the statistic",
 "Each fitting algorithm ends at a point whose statistic is a local minimum within its tolerance, for any model and data.",
 ["inputs"], "all models, data and starting points",
 "Tests compare a handful of fits.",
 ["solvers/"], [("solver iteration loops", "solvers/")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
