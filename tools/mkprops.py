import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p("P01","Model image is the sum of its components at IRAF pixel coordinates",
 "A model image generated without a PSF is, in every pixel, the sum of the values of all image functions in the model, each evaluated with its own parameters and with the (X0,Y0) of its own function set, where the pixel in 1-based column i and row j has coordinates (x=i, y=j). The image of a single selected function contains exactly that function's term and no other. Adding, reordering or splitting function sets, or translating every centre by whole pixels, changes the image only as this sum says.",
 ["inputs","configurations"],"All image sizes (including 1-pixel-wide, non-square), all combinations of image functions and function sets, all parameter vectors in the documented domain, any number of threads.",
 "The regression tests compare a few dozen fixed images against stored references; nothing checks superposition, the pixel-coordinate convention or parameter routing for other function combinations, orders, sizes or centres.",
 ["core/model_object.cpp","core/add_functions.cpp","core/makeimage_main.cpp","function_objects/function_object.cpp"],
 [("per-pixel accumulation of all functions","core/model_object.cpp: ModelObject::CreateModelImage"),("single-function image","core/model_object.cpp: ModelObject::GetSingleFunctionImage"),("function-set start flags","core/model_object.cpp: ModelObject::DefineFunctionSets")],
 observe=["makeimage output image","makeimage --output-functions","model vector returned by the model object"])
p("P02","Every image function evaluates its documented brightness profile",
 "For every available image function, every parameter vector in its documented domain and every pixel position, the intensity at that position is the value of the documented formula (the function's profile along its generalised-elliptical, ring, bar or edge-on coordinates, or the line-of-sight integral of its 3D emissivity), with position angle measured counter-clockwise from +y and ellipticity 1-b/a. With per-pixel subsampling switched on the value approximates the mean of that formula over the pixel, and never differs from the centre value where subsampling does not apply.",
 ["inputs"],"All 31 image functions; parameters over their whole documented range including limiting values (e=0, n small/large, boxy/disky c0, centre pixel, truncation radii); all offsets from the centre.",
 "Unit tests sample a handful of points of ten or so functions; the image regression tests use one fixed parameter set per function.",
 ["function_objects/","docs/imfit_howto.tex"],
 [("profile evaluation","function_objects/func_*.cpp: CalculateIntensity/GetValue"),("geometry set-up","function_objects/func_*.cpp: Setup"),("subsampling","function_objects/func_*.cpp: CalculateSubsamples/GetValue"),("line-of-sight integration","function_objects/integrator.cpp")],
 observe=["function values","makeimage output"])
p("P03","Reported total fluxes equal the integrated light of each component",
 "For a model without PSF, the total flux reported for each component is the integral of that component's profile over the plane (closed form where the function has one, otherwise the sum of its pixels over the requested estimation image centred on it); the reported total is the sum of the components, the reported fractions are component/total and add to one, and reported magnitudes are zero point - 2.5 log10(flux). Fluxes scale linearly with the component's intensity parameters and do not depend on its position in the image.",
 ["inputs","configurations"],"All models made of finite-flux functions plus background components, all parameter values, any zero point and estimation-image size.",
 "Only one or two fixed makeimage --print-fluxes outputs are compared with stored text.",
 ["core/model_object.cpp","core/makeimage_main.cpp","function_objects/func_exp.cpp","function_objects/func_sersic.cpp","function_objects/func_gaussian.cpp"],
 [("total-flux estimation","core/model_object.cpp: ModelObject::FindTotalFluxes"),("closed-form fluxes","function_objects/func_{exp,sersic,gaussian,pointsource}.cpp: TotalFlux"),("report","core/makeimage_main.cpp")],
 observe=["makeimage --print-fluxes output and saved table"])
p("P04","PSF convolution equals direct linear convolution with the normalised PSF",
 "With a PSF image of any shape, the model image equals the direct (zero-boundary, non-cyclic) discrete convolution of the unconvolved model, evaluated on an area extending beyond the image by the PSF's full size on each side, with the PSF centred on its central pixel and normalised to unit sum (or used as is when normalisation is disabled). No light wraps around from one edge to another, and the result does not depend on thread count.",
 ["inputs","configurations"],"All image sizes and PSF sizes (square, non-square, larger than the image, single pixel, even or odd sides) and all PSF pixel values with non-zero sum, including asymmetric PSFs.",
 "Stored-image regressions use two or three symmetric PSFs; no unit test exists for the convolver and none compares with direct summation.",
 ["core/convolver.cpp","core/model_object.cpp"],
 [("FFT convolution with padding","core/convolver.cpp: Convolver::ConvolveImage"),("PSF wrap-around shift","core/convolver.cpp: Convolver::ShiftAndWrapPSF"),("model expansion","core/model_object.cpp: SetupModelImage/CreateModelImage"),("PSF normalisation","core/convolver.cpp: SetupPSF")],
 observe=["makeimage --psf output","expanded model image","model vector"])
p("P05","Oversampled PSF regions equal fine-grid convolution, block-averaged",
 "Inside each declared oversampled region the model image equals the model evaluated on a grid finer by the oversampling factor (same sky area), directly convolved with the oversampled PSF and averaged back over each image pixel; outside all regions the image is exactly what it is without oversampling. This holds for any region position, non-square regions and PSFs, any factor, and several regions with different PSFs.",
 ["inputs","configurations"],"All region rectangles inside the image (touching edges, 1 pixel wide, non-square), all oversampling factors, all oversampled PSF shapes, one or more non-overlapping regions, any functions.",
 "Stored-image regressions cover a few square regions with square PSFs; the down-sampling unit test covers one or two fixed cases.",
 ["core/oversampled_region.cpp","core/downsample.cpp","core/psf_oversampling_info.cpp","core/model_object.cpp"],
 [("fine-grid model and convolution","core/oversampled_region.cpp: OversampledRegion::ComputeRegionAndDownsample"),("block averaging and insertion","core/downsample.cpp: DownsampleAndReplace"),("region parsing","core/psf_oversampling_info.cpp")],
 observe=["makeimage --overpsf output","model vector"])
p("P06","Point sources reproduce the shifted PSF scaled by their total flux",
 "A point source contributes its total flux times the PSF image interpolated at the sub-pixel offset between the pixel and the source (bicubic by default, Lanczos-2 or Lanczos-3 on request), zero outside the PSF's footprint, and is not convolved again; at whole-pixel positions it reproduces the PSF exactly. The result depends only on the PSF, the position, the flux and the interpolation chosen for that source, not on other sources, threads, earlier evaluations, or whether other parts of the image are oversampled; the rotatable variant gives the PSF rotated by its position angle.",
 ["inputs","configurations","histories"],"All PSF shapes (square or not, at least 4x4), all source positions including near and beyond the edges, all fluxes, all interpolation options, mixed with extended functions.",
 "Unit tests check the interpolators on one square symmetric PSF and the image regressions a couple of positions.",
 ["function_objects/func_pointsource.cpp","function_objects/func_pointsource-rot.cpp","function_objects/psf_interpolators.cpp","core/model_object.cpp"],
 [("PSF interpolation","function_objects/psf_interpolators.cpp"),("point-source evaluation","function_objects/func_pointsource.cpp: GetValue"),("adding point sources after convolution","core/model_object.cpp: CreateModelImage")],
 observe=["makeimage output","interpolator values"])
p("P07","Fit statistics equal their definitions from data, model and noise",
 "For any data image, mask, noise description and model, the chi-squared with data-based, model-based or user-supplied errors (sigma, variance or weight image), the Cash statistic and the Poisson maximum-likelihood-ratio statistic are the sums of their documented per-pixel terms over unmasked pixels, using gain, read noise, exposure time, number of combined images and original sky as documented. Where the optimiser works on per-pixel deviates, the sum of squared deviates equals the same statistic.",
 ["inputs","configurations"],"All data images (including zero and negative pixels), all noise parameters, error-image types, masks, PSFs, parameter vectors and statistics.",
 "Unit tests cover a few 2x2 or 4-pixel images; the regressions compare a few printed fit results.",
 ["core/model_object.cpp","core/imfit_main.cpp","core/definitions.h"],
 [("weights from data","core/model_object.cpp: GenerateErrorVector"),("weights from images","core/model_object.cpp: AddErrorVector"),("weights from model","core/model_object.cpp: UpdateWeightVector"),("statistics","core/model_object.cpp: ChiSquared/CashStatistic/ComputeDeviates/ComputePoissonMLRDeviate")],
 observe=["imfit --fitstat-only output","fit statistic and deviates of the model object"])
p("P08","Masked and non-finite pixels never influence any result",
 "The value stored in a masked data pixel (any finite or non-finite value, in the data or in the error image) has no effect on any statistic, deviate, best-fit parameter or degree-of-freedom count; a non-finite data pixel behaves exactly as a masked one, and the number of valid pixels equals the number of unmasked finite pixels. Both mask conventions (non-zero bad, or zero bad when requested) select the same pixels when complemented.",
 ["inputs","configurations"],"All mask patterns, all contents of masked pixels (0, huge, negative, NaN, infinities), all statistics, error sources and both mask conventions.",
 "Tests use one small fixed mask and one NaN pattern, and never vary what is under the mask.",
 ["core/model_object.cpp","core/setup_model_object.cpp","core/imfit_main.cpp"],
 [("mask application","core/model_object.cpp: AddMaskVector/ApplyMask"),("automatic mask of non-finite pixels","core/model_object.cpp: VetDataVector/FinalSetupForFitting"),("weight check","core/model_object.cpp: CheckWeightVector")],
 observe=["imfit --fitstat-only output","best-fit parameter file","deviates"])
p("P09","Results do not depend on thread count or on earlier evaluations",
 "Model images, single-function images, fit statistics, deviates and fluxes are a function of the model set-up and the current parameter vector only: the same sequence point gives the same values for any thread count and work-chunk size, and whatever other evaluations (other parameters, other statistics, images, bootstrap-free) were made on the same model before.",
 ["histories","schedules","configurations"],"All histories of evaluations on one model object (images, single functions, statistics, deviates, with varying parameters), all thread counts and chunk sizes, with and without PSF, point sources and oversampled regions.",
 "Tests evaluate a model once or twice in a fixed order and never compare thread counts or orders.",
 ["core/model_object.cpp","core/convolver.cpp","core/oversampled_region.cpp","function_objects/"],
 [("parallel pixel loops","core/model_object.cpp: CreateModelImage/GetSingleFunctionImage"),("state re-initialisation per evaluation","core/model_object.cpp; function_objects/*: Setup")],
 observe=["model vector, deviates, statistics of the model object","makeimage --max-threads"])
p("P10","Configuration files are read back exactly as written",
 "For every valid configuration file, every function set, function, parameter value, limit pair, fixed flag, label, optional parameter and image-option value is read exactly as written and in order, regardless of blank lines, comments, trailing comments and whitespace or tab layout. What the file states is what is computed: the written initial values are used as start or model values, and every limit or fixed flag is attached to the parameter it is written beside.",
 ["inputs"],"All grammatical configuration files: any number of function sets and functions, any legal numeric notation, limits, 'fixed', labels, OPTIONAL_PARAMS sections and image-description options.",
 "The parser unit tests read about twenty fixed files.",
 ["core/config_file_parser.cpp","core/add_functions.cpp","core/utilities.cpp"],
 [("line clean-up","core/utilities.cpp: TrimWhitespace/ChopComment"),("parsing","core/config_file_parser.cpp: ReadConfigFile/AddParameterAndLimit"),("model building","core/add_functions.cpp: AddFunctions")],
 observe=["ReadConfigFile results","makeimage image","imfit parameter summary"])
p("P11","Malformed text input is rejected cleanly, never crashing or being misread",
 "Any byte sequence given as a configuration file, image-description file, saved MCMC state or option value either is accepted with a well-defined meaning or is rejected with an error message and a non-zero exit; it never causes a crash, memory error, hang or undefined behaviour. In particular a parameter line with a missing or non-numeric value, a lower limit above the upper one, an initial value outside its limits, a wrong number of parameters for a function, an unknown function name or a missing X0/Y0 is always reported and nothing is computed.",
 ["inputs","fault_sequences"],"All byte strings and all single or multiple corruptions (deleted, duplicated, truncated, swapped lines or tokens, odd line ends) of valid files.",
 "Tests contain roughly ten hand-written bad files, each with one error.",
 ["core/config_file_parser.cpp","core/utilities.cpp","core/commandline_parser.cpp","core/imageparams_file_parser.cpp","core/add_functions.cpp"],
 [("syntax vetting","core/config_file_parser.cpp: VetConfigFile/ValidParameterLine"),("numeric checks","core/utilities.cpp: IsNumeric/NotANumber"),("parameter counting","core/add_functions.cpp / core/imfit_main.cpp")],
 observe=["exit status and messages of the programs under address and undefined-behaviour sanitizers"])
p("P12","Saved fit results describe the fit and reproduce it when read back",
 "The parameter file written after a fit is itself a valid configuration that, read back with the same data and options, reproduces the reported best-fit statistic, AIC, BIC and model image within the printed precision, and lists every function, label and fixed parameter of the original model in order. The saved model image, residual image and printed results all refer to the same best-fit parameters, with centres given in the coordinates of the original full image; saved residual equals data minus model.",
 ["inputs","configurations"],"All models, statistics, solvers, masks, PSFs, image sections and parameter magnitudes, including with parameter-error, bootstrap and output options.",
 "Regression tests compare a few fixed outputs and one re-read file.",
 ["core/print_results.cpp","core/imfit_main.cpp","core/model_object.cpp"],
 [("parameter file output","core/print_results.cpp: SaveParameters/PrintResults"),("parameter formatting","core/model_object.cpp: PrintModelParamsToStrings"),("offset handling","core/model_object.cpp: parameter offset application")],
 observe=["bestfit_parameters file","--save-model/--save-residual/--save-weights images","imfit --fitstat-only on the saved file"])
p("P13","FITS images are read and written without loss or displacement",
 "Reading a 2-D FITS image (any BITPIX, BSCALE/BZERO, first or named HDU extension, gzip-compressed) yields each pixel's value at its column and row, and a written image read back is the same to the stated storage precision with its dimensions; files with the wrong number of dimensions, no image data or not FITS are rejected with an error. An output image is never silently lost or truncated, and header history entries are recorded.",
 ["inputs"],"All image sizes, pixel types, values (including non-finite), HDU arrangements and unusable files.",
 "Unit tests read five or six fixed files.",
 ["core/image_io.cpp","core/getimages.cpp"],
 [("reading","core/image_io.cpp: ReadImageAsVector/GetImageSize/CheckForImage"),("writing","core/image_io.cpp: SaveVectorAsImage")],
 observe=["pixel vectors","written FITS files read by an independent reader"])
p("P14","Fitting an image section equals fitting the cut-out with shifted centres",
 "Using a rectangular section of the data (with the same section of mask and error images) gives the same statistics and fit results as a separate file holding just those pixels, with all centres and centre limits expressed in full-image coordinates; an omitted section, a whole-image section and '*' ranges are equivalent, and a section that is malformed or outside the image is rejected.",
 ["inputs","configurations"],"All section rectangles of all image sizes, for data, mask and error images, models, limits and statistics.",
 "Tests use one or two fixed sections.",
 ["core/imfit_main.cpp","core/image_io.cpp","core/utilities.cpp","core/add_functions.cpp"],
 [("section parsing","core/utilities.cpp: GetPixelStartCoords/GetAllCoordsFromBracket"),("section reading","core/image_io.cpp (cfitsio sections)"),("offset of centres and limits","core/imfit_main.cpp / core/param handling")],
 observe=["imfit --fitstat-only output","bestfit_parameters file"])
p("P15","Every solver respects limits and never returns a worse fit than its start",
 "Whatever the data, model, statistic and solver (Levenberg-Marquardt, Nelder-Mead, all NLopt variants, differential evolution and its Latin-hypercube variant), the best-fit parameters lie within their limits, fixed parameters keep exactly their values, and (except for the population-based solvers, which ignore the start) the final statistic is no worse than at the starting values; the reported final statistic is the one obtained by evaluating the model at the reported parameters. For noise-free data generated by the model, started near the truth, the generating parameters are recovered, and seeded stochastic solvers are reproducible.",
 ["inputs","configurations","histories"],"All objective functions, parameter counts, limit/fixed patterns, starting points, statistics, tolerances and solvers.",
 "A few end-to-end fits with fixed data; limits, fixed parameters and non-worsening are never checked over varied problems.",
 ["solvers/levmar_fit.cpp","solvers/mpfit.cpp","solvers/nmsimplex_fit.cpp","solvers/nlopt_fit.cpp","solvers/diff_evoln_fit.cpp","solvers/DESolver.cpp","solvers/dispatch_solver.cpp"],
 [("Levenberg-Marquardt","solvers/mpfit.cpp, solvers/levmar_fit.cpp"),("Nelder-Mead and NLopt","solvers/nmsimplex_fit.cpp, solvers/nlopt_fit.cpp"),("differential evolution","solvers/DESolver.cpp, solvers/diff_evoln_fit.cpp")],
 observe=["best-fit parameters and statistic after dispatching to a solver","imfit output"])
p("P16","Bootstrap results honour fixed parameters, limits, seeds and the data",
 "Bootstrap resampling draws only unmasked pixels, never changes fixed parameters, keeps every resampled fit within limits, writes one row per successful iteration in the coordinates of the full image, and gives identical output for identical seeds. Reported standard deviations and confidence intervals are those of the written rows, and running a bootstrap does not change the best-fit values, statistic, AIC or BIC reported or saved for the data themselves.",
 ["inputs","configurations","histories"],"All models, data, masks, statistics, seeds, iteration counts, fixed patterns and image sections.",
 "The regressions compare a seeded run or two; nothing checks the summary against the rows or the effect on other output.",
 ["core/bootstrap_errors.cpp","core/model_object.cpp","core/imfit_main.cpp","core/statistics.cpp"],
 [("resampling","core/model_object.cpp: UseBootstrap/MakeBootstrapSample"),("bootstrap driver and summary","core/bootstrap_errors.cpp")],
 observe=["imfit --bootstrap/--save-bootstrap output","bestfit_parameters file"])
p("P17","MCMC chains stay in bounds and record the right likelihood and target",
 "Every state recorded by the MCMC program lies within the parameter limits, fixed parameters are constant, the recorded likelihood is -1/2 of the fit statistic evaluated at that recorded state, a generation without acceptance repeats the previous state, and the files contain one row per generation per chain in full-image coordinates. Equal seeds give equal chains, and for problems with a known posterior the post-burn-in samples have that distribution within sampling error.",
 ["inputs","configurations","histories"],"All models, data, limit/fixed patterns, chain counts, seeds, generation counts and thinning/burn-in options.",
 "Tests compare one seeded chain file against a stored copy.",
 ["cdream/src/","core/mcmc_main.cpp"],
 [("DREAM sampler","cdream/dream.cpp"),("initialisation","cdream/dream_initialize.cpp"),("crossover","cdream/gen_CR.cpp"),("likelihood","core/mcmc_main.cpp: LikelihoodFunction"),("output","cdream/dream.cpp, core/mcmc_main.cpp")],
 observe=["chain output files of imfit-mcmc"])
p("P18","Multi-image fits apply one model consistently to all images",
 "Fitting or evaluating several images with one model gives a total statistic equal to the weighted sum of the statistics of each image alone, with the shared model transformed for each image by its declared offset, pixel scale, rotation and flux scale and with image-local functions affecting only their own image; with identity transforms and one image it equals the single-image program. Images generated by the multi-image image maker with a given description are those the multi-image fitter compares against.",
 ["inputs","configurations"],"All numbers of images, image-description values (offsets, pixel scale, rotation, intensity scale), local functions, masks, PSFs and statistics.",
 "Shell regressions cover a few fixed two-image cases; there is no unit test of the multi-image model.",
 ["core/model_object_multimage.cpp","core/multimfit_main.cpp","core/makemultimages_main.cpp","core/paramvector_processing.cpp","core/param_holder.cpp","core/imageparams_file_parser.cpp"],
 [("per-image parameter transform","core/model_object_multimage.cpp, core/paramvector_processing.cpp"),("summed statistic","core/model_object_multimage.cpp: GetFitStatistic"),("function scaling","function_objects/*: Setup pixelScaling/intensityScale/imageRotation")],
 observe=["multimfit output","makemultimages images"])
p("P19","Command-line options take effect exactly and override the configuration file",
 "An option given on the command line has exactly its documented effect in any position, order and spelling form ('--opt value', '--opt=value'), overrides the corresponding configuration-file setting, and leaves everything else unchanged. An unrecognised option, a missing value, or a non-numeric or out-of-range value is reported with a non-zero exit and no output is produced.",
 ["inputs","configurations"],"All subsets, orders and spellings of options of the programs, all valid and invalid values.",
 "Tests try individual options with one value each.",
 ["core/commandline_parser.cpp","core/imfit_main.cpp","core/makeimage_main.cpp","core/mcmc_main.cpp","core/option_struct_*.h"],
 [("parsing","core/commandline_parser.cpp: ParseCommandLine"),("option processing","core/*_main.cpp: ProcessInput"),("override by command line","core/*_main.cpp: HandleConfigFileOptions")],
 observe=["exit status, printed results and output images"])
p("P20","makeimage writes exactly the images it is asked for",
 "The program that makes model images writes an image of the requested size (explicit, reference image, or configuration file, in that order of precedence) to the requested name; the images saved for individual functions are one per function in order and sum to the total image when each is produced with the same PSF; and the expanded unconvolved or convolved image contains the ordinary image at the documented offset. Nothing is written when saving is disabled or the request is invalid.",
 ["inputs","configurations"],"All models, sizes, PSFs, size sources and output options.",
 "A few fixed command lines are compared with references; sums of individual images and sizes are never checked in general.",
 ["core/makeimage_main.cpp","core/model_object.cpp"],
 [("size selection","core/makeimage_main.cpp"),("individual function images","core/makeimage_main.cpp, core/model_object.cpp: GetSingleFunctionImage"),("expanded image","core/model_object.cpp: GetExpandedModelImageVector")],
 observe=["files written by makeimage"])
p("P21","Reported summary statistics equal their definitions",
 "The degrees of freedom, reduced chi-squared, AIC (with small-sample correction), BIC, parameter uncertainties from the fit covariance, means, standard deviations and 68% confidence intervals reported by the programs are those of their textbook definitions for the number of valid pixels and free parameters involved. Confidence limits are elements of the sample, ordered, and independent of the sample's order.",
 ["inputs"],"All samples, sample sizes, fit statistics, numbers of data points and of free parameters.",
 "Unit tests do not cover the statistics routines beyond one or two fixed vectors.",
 ["core/statistics.cpp","core/print_results.cpp","solvers/levmar_fit.cpp","solvers/mpfit.cpp"],
 [("mean, sigma, AIC, BIC, confidence interval","core/statistics.cpp"),("covariance to errors","solvers/mpfit.cpp, solvers/levmar_fit.cpp"),("report","core/print_results.cpp")],
 observe=["statistics routines","imfit printed output"])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
