NOTE = ("Every obligation is decided by an SMT solver for all real values within the stated bounds, on the program "
        "re-traced from /repo at each run; a counterexample is reported only after it is reproduced on the real code. "
        "Trusted: jax's tracer, the jaxpr-to-formula translation (validated numerically on each run), real arithmetic "
        "in place of floating point, the lemmas about exp/log/sqrt/Phi in vlib/smt.py.")
DK = "diffmah/diffmah_kernels.py"
PK = "diffmah/diffmahpop_kernels/"
TK = PK + "t_peak_kernels/"
PROPS = []
NA = {}


def prop(**k):
    k.setdefault("note", NOTE)
    PROPS.append(k)


prop(id="P01", title="Halo mass never decreases and is frozen after the peak time",
     statement="For every legal set of halo parameters the mass never decreases with time up to the age at z=0, stays "
               "constant at and after the halo's peak time, and the accretion rate up to that age is never negative and "
               "is zero after the peak time.",
     quant="every halo parameter vector in the documented domain, every pair of times up to the age of the universe",
     tests="The tests look at a few default or random parameter vectors on one time grid; monotonicity must hold for "
           "every parameter combination and every pair of times.",
     files=[DK], mech=[("clipping at t_peak", DK + ":_diffmah_kern"), ("rolling power law", DK + ":_log_mah_kern")],
     observe=["mah_singlehalo", "mah_halopop"])
prop(id="P02", title="Mass history follows the rolling power law normalised at z=0",
     statement="The logarithmic mass at any time before the peak is logm0 plus a rolling power law in time relative to "
               "the age at z=0, with index running from the early to the late value around the transition time.  "
               "A halo that is still growing at z=0 has exactly mass logm0 then, and its history does not depend on "
               "anything else.",
     quant="every halo parameter vector in the documented domain, every time",
     tests="Tests pin a handful of stored values and shapes; the functional form must hold for all parameters/times.",
     files=[DK], mech=[("power law index", DK + ":_power_law_index_vs_logt"), ("kernel", DK + ":_log_mah_kern")],
     observe=["mah_singlehalo"])
prop(id="P03", title="Accretion rate is the time derivative of the mass history",
     statement="The accretion rate returned with a mass history is the derivative of that same mass history with "
               "respect to time, in the documented units, for every halo and every time.",
     quant="every halo parameter vector in the documented domain, every time",
     tests="Tests compare with finite differences on a few grids with loose tolerance.",
     files=[DK], mech=[("autodiff of the mass", DK + ":_dmhdt_kern"), ("unit conversion", DK + ":_diffmah_kern")],
     observe=["mah_singlehalo", "mah_halopop"])
prop(id="P04", title="Population, per-object and unbounded-parameter entry points agree",
     statement="Evaluating a population gives, for each halo, exactly what evaluating that halo alone gives, and the "
               "mass-only, rate-only and unbounded-parameter entry points give the same numbers as the combined one.",
     quant="every pair of halos, every pair of times, every unbounded parameter vector",
     tests="Tests evaluate shapes and one or two halos; agreement must hold row by row for every halo.",
     files=[DK], mech=[("vmap over halos", DK + ":mah_halopop"), ("unbounded entry points", DK + ":_diffmah_kern_u_params")],
     observe=["mah_halopop", "mah_singlehalo"])
prop(id="P05", title="Halo parameter transform stays in range, keeps late<=early, is invertible",
     statement="Every unbounded parameter vector maps to a physical vector strictly inside the documented ranges with "
               "the late index never above the early one.  The map is strictly increasing in each parameter's own "
               "unbounded coordinate, and mapping forth and back returns the starting point in both directions.",
     quant="every real unbounded 5-vector, every physical 5-vector inside the ranges",
     tests="Tests round-trip the default and some random vectors.",
     files=[DK], mech=[("bounding", DK + ":get_bounded_mah_params"), ("unbounding", DK + ":get_unbounded_mah_params")],
     observe=["get_bounded_mah_params", "get_unbounded_mah_params"])
prop(id="P06", title="Every population component's transform is bounded, monotone and invertible",
     statement="For each component of the population model, every unbounded vector maps strictly inside the ranges that "
               "component publishes, each physical parameter increases with its own unbounded parameter and depends on "
               "no other, and the map and its inverse undo one another.",
     quant="every component, every real unbounded vector, every physical vector inside the ranges",
     tests="Tests round-trip default and a few random vectors to loose tolerances; shape errors in single coordinates "
           "away from the defaults are not seen.",
     files=[PK + "logtc_early.py", PK + "late_index_bimod.py", PK + "early_index_bimod.py", PK + "covariance_kernels.py",
            PK + "frac_early_cens.py", TK + "tp_pdf_cens_flex.py", TK + "tp_pdf_sats.py"],
     mech=[("per-component sigmoid bounding", PK + "*/get_bounded_*"), ("inverse", PK + "*/get_unbounded_*")],
     observe=["get_bounded_*_params", "get_unbounded_*_params"])
prop(id="P07", title="The full population parameter transform routes every parameter by name",
     statement="The full population model's transform gives each named parameter the value its own component's "
               "transform gives it, in both directions, with the inverse undoing it; and combining a partial parameter "
               "set with the defaults changes exactly the named parameters.",
     quant="every real unbounded vector, every physical vector in range, every single, adjacent-pair and alternating "
           "subset of named parameters",
     tests="Tests round-trip defaults, where a mis-routed parameter often has the same default as its neighbour.",
     files=[PK + "bimod_censat_params.py", PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py",
            PK + "bimod_censat_fithelp.py"],
     mech=[("component routing", PK + "bimod_censat_params.py:get_diffmahpop_params_from_u_params")],
     observe=["get_diffmahpop_params_from_u_params", "get_diffmahpop_u_params_from_params"])
prop(id="P08", title="Mean halo parameters follow the population model and stay in the legal domain",
     statement="For any population parameters in range the mean early- and late-forming halo parameters and the "
               "early fraction equal the published scaling relations, separately for centrals and satellites.  They "
               "are finite, the fraction lies in [0,1], and each mean parameter is inside the halo model's legal domain.",
     quant="every population parameter vector in range, halo mass, observation time, peak time draw",
     tests="Tests evaluate the defaults and a few random perturbations and check finiteness/loose ranges.",
     files=[PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "bimod_logm0_kernels/logm0_pop_bimod.py",
            PK + "logtc_bimod.py", PK + "frac_early_cens.py"],
     mech=[("mean parameters", PK + "mc_bimod_cens.py:mean_diffmah_params"), ("early fraction", PK + "frac_early_cens.py")],
     observe=["mc_diffmah_params_singlecen", "mc_diffmah_params_singlesat"])
prop(id="P09", title="Central peak times follow the modelled CDF and stay within (0, t0]",
     statement="A central's randomly drawn peak time is the inverse of the model's cumulative distribution at the "
               "uniform draw: it lies below any time exactly when the draw is below the modelled probability of peaking "
               "before that time, up to the resolution of the table.  It is always positive and at most the age of the "
               "universe.",
     quant="every population parameter vector in range, mass, observation time, every uniform draw",
     tests="Tests draw a few thousand values with a fixed seed and check ranges and loose fractions.",
     files=[TK + "tp_pdf_cens_flex.py"], mech=[("inverse CDF sampling", TK + "tp_pdf_cens_flex.py:mc_tpeak_singlecen")],
     observe=["mc_tpeak_singlecen", "mc_t_peak_cenpop"])
prop(id="P10", title="Satellite peak times follow a truncated normal within (0, t_obs]",
     statement="A satellite's randomly drawn peak time over its observation time follows a normal distribution with the "
               "modelled location and width, truncated to [0.1, 1]; it lies below any value exactly when the uniform "
               "draw is below the truncated CDF there, up to table resolution.  Each satellite of a population uses "
               "its own mass, time and draw.",
     quant="every population parameter vector in range, mass, observation time, every uniform draw",
     tests="Tests draw samples with fixed seeds and check ranges.",
     files=[TK + "tp_pdf_sats.py", TK + "utp_pdf_kernels.py"],
     mech=[("inverse CDF sampling", TK + "utp_pdf_kernels.py:mc_tp_pdf_singlesat"),
           ("scaling relations", TK + "tp_pdf_sats.py:_get_utp_loc")],
     observe=["mc_tpeak_singlesat", "mc_tp_pdf_satpop"])
FH = "diffmah/fitting_helpers/"
DL = "diffmah/data_loaders/"
PYNOTE = ("Every obligation is decided by an SMT solver for all values within the stated bounds, on every path of the real "
          "Python/numpy code, which is executed on symbolic numbers from /repo's current source at each run; a violation is "
          "reported only after it is reproduced on the real code with concrete numbers. Trusted: the symbolic numpy layer "
          "(validated against real numpy on each run), the named stand-ins, real arithmetic in place of floating point.")
PYTECH = ("symbolic execution of the Python/numpy source with path forking + SMT (z3), replay of counterexamples on "
          "the real code")
prop(id="P11", title="Scatter covariance is valid, with the named deviations and correlations",
     statement="For every population parameter set and mass the scatter covariance of the halo parameters is symmetric, "
               "positive definite, has the modelled standard deviations on its diagonal and the modelled correlation "
               "coefficient of each named pair off it.  The deviations run monotonically with mass between their two "
               "named values.",
     quant="every covariance parameter vector in the published ranges, every mass",
     tests="Tests check a few random parameter vectors for finite Cholesky factors.",
     files=[PK + "covariance_kernels.py"], mech=[("covariance", PK + "covariance_kernels.py:_get_diffmahpop_cov")],
     observe=["mc_cenpop", "mc_satpop"])
prop(id="P12", title="Every Monte Carlo halo is one whole class draw with its own history",
     statement="Each halo generated by the Monte Carlo is entirely its early-class draw or entirely its late-class draw, "
               "chosen as early exactly when its selection draw is below the modelled early fraction at its own mass and "
               "time.  Each class draw is the class mean at that halo's mass, time and peak time plus correlated normal "
               "scatter, stays in the legal parameter domain, and the returned mass and rate histories are those of the "
               "returned parameters.",
     quant="every population parameter vector in range, mass, time, peak time and every outcome of the random draws",
     tests="Tests run seeds and check shapes, finiteness and loose ranges.",
     files=[PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "param_utils.py"],
     mech=[("central draws", PK + "mc_bimod_cens.py:mc_diffmah_cenpop"),
           ("satellite draws", PK + "mc_bimod_sats.py:mc_diffmah_satpop"),
           ("selection", PK + "param_utils.py:mc_select_diffmah_params")],
     observe=["mc_cenpop", "mc_satpop"], over=["inputs", "histories"])
prop(id="P13", title="Every random quantity of every halo comes from its own random stream",
     statement="No two random quantities drawn for a population, a mass bin or a loss evaluation share a random stream: "
               "every halo's peak time, class selection and scatter are drawn from distinct streams derived from the "
               "caller's key, and no stream is both consumed and split.",
     quant="every root key; every halo, class and bin of a call",
     tests="Correlated draws leave every marginal right; no fixed-seed test of shapes and ranges can see them.",
     files=[PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py",
            TK + "tp_pdf_cens_flex.py", TK + "tp_pdf_sats.py", TK + "utp_pdf_kernels.py"],
     mech=[("key splitting", PK + "mc_bimod_cens.py:mc_diffmah_params_singlecen")],
     observe=["mc_cenpop", "mc_satpop", "loss_mah_moments_multibin"], over=["inputs", "histories"])
prop(id="P14", title="Predicted mean and scatter of a mass bin are exact moments of its halos",
     statement="The predicted mean history of a mass bin is the average over its sampled halos of the early and late "
               "histories weighted by each halo's early fraction, and the predicted scatter is the root of the "
               "correspondingly weighted mean square deviation from it.  All halos of the sample are drawn at the bin's own "
               "mass and time with the caller's parameters.",
     quant="every early and late history and every early fraction of the halos of the sample",
     tests="Tests check that moments are finite and have the right shape.",
     files=[PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py"],
     mech=[("moments", PK + "mc_bimod_cens.py:predict_mah_moments_singlebin")],
     observe=["predict_mah_moments_singlebin"])
prop(id="P15", title="Population-fit loss is the mean squared error of mean and scatter over bins",
     statement="The fitting loss is the mean over bins and times of the squared errors of predicted mean and scatter, each "
               "bin predicted at its own mass, times, observation time and random stream; it is never negative and is zero "
               "exactly on perfect agreement.  The joint loss is the sum of the central and satellite losses on their own "
               "data, and fitting a subset of unbounded parameters evaluates the same loss with the rest at their defaults.",
     quant="every target, bin mass and time, population parameter vector, and every possible prediction",
     tests="Tests check that the loss and its gradients are finite and positive for a few random targets.",
     files=[PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py", PK + "bimod_censat_fithelp.py"],
     mech=[("loss", PK + "bimod_cens_fithelp.py:loss_mah_moments_multibin"),
           ("joint loss", PK + "bimod_censat_fithelp.py:loss_mah_moments_multibin_censat")],
     observe=["loss_mah_moments_multibin", "loss_mah_moments_multibin_censat"])
prop(id="P16", title="Fit data are exactly the snapshots passing the cuts, as cumulative peak mass",
     statement="A halo is fitted to exactly those snapshots that are late enough, above the mass threshold and within the "
               "dynamic range below the final mass, in order, with their own times.  The fitted masses are the logarithm of "
               "the running peak mass of those snapshots, so they never decrease, and a snapshot below the threshold is "
               "never used.",
     quant="every simulated mass history, including ones that shrink or start at zero mass, and every choice of cuts",
     tests="Tests use smooth model histories, which never shrink, and fixed cuts.",
     files=[FH + "diffmah_fitter_helpers.py"],
     mech=[("selection", FH + "diffmah_fitter_helpers.py:_get_target_data"),
           ("threshold", FH + "diffmah_fitter_helpers.py:_get_clipped_log_mah")],
     observe=["get_loss_data", "diffmah_fitter"], note=PYNOTE, technique=PYTECH)
prop(id="P17", title="What the fitter starts from, when it is skipped, and what it returns",
     statement="The fit starts from the halo's final mass with the peak time at the first snapshot that reaches the peak mass "
               "(or at the value the caller fixes) and is skipped exactly when fewer than three snapshots can be fitted or "
               "the caller asks for it.  A skipped halo is returned with the no-fit values and flags; otherwise the "
               "optimizer runs once with the caller's options and its answer, loss, success flag and code are returned "
               "with the parameters made physical.",
     quant="every mass history, every optimizer outcome",
     tests="Tests run the optimizer on a few smooth histories; they cannot cover skipped, short, shrinking or failed fits.",
     files=[FH + "diffmah_fitter_helpers.py"], mech=[("driver", FH + "diffmah_fitter_helpers.py:diffmah_fitter"),
                                                     ("start", FH + "diffmah_fitter_helpers.py:get_loss_data")],
     observe=["diffmah_fitter"], note=PYNOTE, technique=PYTECH)
prop(id="P18", title="The primary optimizer's answer is used when valid, otherwise the fallback's",
     statement="The quasi-Newton optimizer is given the caller's loss, gradient, data and start, and its answer is returned "
               "exactly when it reports success with a finite, legal loss; in every other case the gradient-descent "
               "fallback is run from the same start and its answer, success flag and code are returned unchanged.",
     quant="every start, every outcome of either optimizer including not-a-number and infinite losses",
     tests="Tests only see fits where the primary optimizer succeeds.",
     files=[FH + "fit_utils.py", FH + "bfgs_wrapper.py"], mech=[("fallback", FH + "bfgs_wrapper.py:bfgs_adam_fallback")],
     observe=["bfgs_adam_fallback"], over=["inputs", "fault_sequences"], note=PYNOTE, technique=PYTECH)
prop(id="P19", title="Gradient descent returns the best point it visited and flags non-finite steps",
     statement="The gradient-descent optimizer returns a visited point together with the loss at that very point, the least "
               "loss seen (or the first one under the tolerance), over warm-ups and main run.  Its recorded losses and "
               "parameters correspond step by step; a run in which a loss, gradient or parameter became non-finite is "
               "flagged as failed and never returns a non-finite answer, and any other run is flagged as successful.",
     quant="every sequence of iterates and losses, a non-finite value at any one step, every tolerance and warm-up count",
     tests="Tests descend one smooth bowl; they never meet a bad step, an early stop, or a loss that rises again.",
     files=[FH + "fit_utils.py"], mech=[("descent", FH + "fit_utils.py:jax_adam_wrapper")],
     observe=["jax_adam_wrapper"], over=["inputs", "histories", "fault_sequences"], note=PYNOTE, technique=PYTECH)
prop(id="P20", title="Fit results survive the text format and the collated file, column by column",
     statement="The line written for a fit, read back, gives the same halo's parameters, loss, number of points and fit code "
               "under the names in the header, to the printed precision, for skipped fits too.  The collated file has one "
               "row per fit in order, every column of the header, and halo identifiers that are exact however large.",
     quant="every parameter value, loss, point count, code and halo identifier; successful and skipped fits",
     tests="Tests round-trip a few ordinary fits; identifiers beyond double precision and skipped fits are not sampled.",
     files=[FH + "diffmah_fitter_helpers.py"], mech=[("text format", FH + "diffmah_fitter_helpers.py:get_outline"),
                                                     ("parsing", FH + "diffmah_fitter_helpers.py:_parse_outline")],
     observe=["get_outline", "write_collated_data"], note=PYNOTE, technique=PYTECH)
prop(id="P21", title="Tables are loaded with exactly the requested columns and rows",
     statement="Loading a table returns exactly the requested columns (all of them by default), under their own names, from "
               "the requested group however deeply nested, restricted to the requested row range with each row's values "
               "unchanged.",
     quant="every content, every first and last row including open-ended and end-relative ones, top-level or nested groups",
     tests="No test loads a file with this function at all; the test only imports it.",
     files=[DL + "io_utils.py"], mech=[("loader", DL + "io_utils.py:load_flat_hdf5")], observe=["load_flat_hdf5"],
     note=PYNOTE, technique=PYTECH)
prop(id="P22", title="Time-step widths tile the time axis with cell edges midway between samples",
     statement="The width assigned to each of a sequence of times is positive, is the distance between the midpoints to its "
               "two neighbours (the last cell reaching half the width before it past the last time), equals the step on a "
               "uniform grid, and is unchanged by a shift of the time axis and proportional to a change of units.",
     quant="every increasing sequence of times within the stated length",
     tests="Tests check one linear grid.", files=["diffmah/utils.py"], mech=[("widths", "diffmah/utils.py:get_dt_array")],
     observe=["get_dt_array"], note=PYNOTE, technique=PYTECH)
prop(id="P23", title="Sigmoids interpolate and invert; matrix helpers follow their documented layout",
     statement="The sigmoid used by every bounded quantity lies strictly between its two limits, is monotone and symmetric "
               "about its centre, and its inverse undoes it both ways.  The sloped sigmoid passes through its pivot; "
               "the matrix helpers put the given entries into a triangular factor row by row and convert between "
               "correlation and covariance exactly.",
     quant="every argument, centre, steepness and pair of limits; every matrix content within the stated size",
     tests="Tests compare a few values and random matrices to numpy within loose tolerances.",
     files=["diffmah/utils.py"], mech=[("sigmoid", "diffmah/utils.py:_sigmoid"), ("inverse", "diffmah/utils.py:_inverse_sigmoid"),
                                       ("triangular", "diffmah/utils.py:get_cholesky_from_params")],
     observe=["_sigmoid", "_inverse_sigmoid"])
prop(id="P24", title="Trimmed statistics keep central percentiles; broadcasting keeps every value",
     statement="The trimmed mean and variance of a sample are those of the values between the two trimming percentiles, "
               "both included, whatever the order of the sample.  Combining scalars and arrays of a common length returns "
               "one array per argument of that length with every value in place, and refuses mismatched lengths.",
     quant="every sample and trimming fraction; every mixture of scalar and array arguments within the stated size",
     tests="Tests check one large random sample loosely.", files=["diffmah/utils.py"],
     mech=[("trimmed statistics", "diffmah/utils.py:trimmed_mean_and_variance"), ("broadcasting", "diffmah/utils.py:get_1d_arrays")],
     observe=["trimmed_mean", "get_1d_arrays"], note=PYNOTE, technique=PYTECH)
prop(id="P25", title="Loaded histories are cumulative peak masses in the stated units, halo by halo",
     statement="Every simulation loader returns, for each halo in file order with its own identifier, the running peak of "
               "that halo's mass history in the stated units with the simulation's own Hubble parameter divided out, at "
               "cosmic times from the simulation's own cosmology; empty early snapshots stay empty.  Rows scattered over "
               "parallel ranks arrive exactly once, in order and balanced, and a requested row range returns those rows.",
     quant="every mass history including shrinking ones and empty snapshots, every cosmology, number of ranks and row range",
     tests="No test exercises any of these loaders: they need simulation data and packages that are not installed.",
     files=[DL + f for f in ("load_bpl_um_data.py", "load_diffmah_pub_data.py", "load_galacticus_eps_mahs.py",
                             "load_hacc_mahs.py", "load_tng_mahs.py")] + ["scripts/fitting_scripts/load_mah_data.py"],
     mech=[("peak mass", DL + "load_hacc_mahs.py:load_mahs"), ("scatter", DL + "load_hacc_mahs.py:_scatter_nd"),
           ("public data", DL + "load_diffmah_pub_data.py:load_tng_data")],
     observe=["load_tng_data", "load_bolshoi_data", "load_mahs_per_rank", "extract_galacticus_mah_tables"],
     over=["inputs", "configurations"], note=PYNOTE, technique=PYTECH)
prop(id="P26", title="Target moments are population averages of rescaled histories, outliers removed",
     statement="Tabulated target moments are the population mean and variance, at each requested time, of mass and growth "
               "histories rescaled so that every halo ends at the observed mass; they equal the exact averages at tabulated "
               "times, lie between neighbouring values elsewhere and do not depend on any halo's own mass scale.  A halo is "
               "dropped as an outlier exactly when its rescaled history departs from the trimmed mean by more than the "
               "allowed number of trimmed deviations at some time of the checked range.",
     quant="every population of histories within the stated size, every observed mass, time grid and outlier threshold",
     tests="No test calls these functions.", files=[FH + "measure_mahs.py"],
     mech=[("moments", FH + "measure_mahs.py:measure_target_data"), ("outliers", FH + "measure_mahs.py:get_clean_sample_mask")],
     observe=["measure_target_data", "get_clean_sample_mask"], note=PYNOTE, technique=PYTECH)
prop(id="P27", title="Population targets keep the requested rows, each with its own samples",
     statement="Loading population targets keeps exactly the rows that pass the mass, time and sample-size cuts of their own "
               "class; each kept row gets distinct samples from its own sample file with every parameter in its own column, "
               "and the histories of exactly those samples, also shifted to end at the row's observed mass.  A named "
               "parameter set written to a file is read back with the same names, order and values.",
     quant="every content of the tables and sample files, every cut and subsample; every parameter set within the stated size",
     tests="No test loads targets; the file round trip is tested on ten random sets of scalars.",
     files=[PK + "load_diffmahpop_fitdata.py", DL + "io_utils.py"],
     mech=[("samples", PK + "load_diffmahpop_fitdata.py:_attach_samples"),
           ("rescaling", PK + "load_diffmahpop_fitdata.py:rescale_target_log_mahs"),
           ("parameter file", DL + "io_utils.py:load_namedtuple_from_hdf5")],
     observe=["load_diffmahpop_targets", "load_namedtuple_from_hdf5"], note=PYNOTE, technique=PYTECH)
prop(id="P28", title="Peak-time densities are proper; early fractions and slopes stay legal",
     statement="The distribution of a central's peak time, in Gyr or relative to the age of the universe, is the documented "
               "truncated normal: its cumulative form rises from 0 at a tenth of the age to 1 today and its density is "
               "the matching one per Gyr.  Random draws stay in that range and come from each halo's own distribution; "
               "the fraction still growing today and the early index predicted from mass and times stay legal.",
     quant="every parameter in its published range, every mass, observation time, age and draw",
     tests="Tests evaluate shapes and finiteness; the cumulative form was not even normalised.",
     files=[TK + "tp_pdf_cens.py", TK + "utp_pdf_kernels.py", PK + "ftpt0_cens.py", PK + "early_index_pop.py"],
     mech=[("density and CDF", TK + "tp_pdf_cens.py:_t_peak_cens_cdf_kern"), ("draws", TK + "utp_pdf_kernels.py:mc_tp_pdf_singlesat"),
           ("still growing", PK + "ftpt0_cens.py:_ftpt0_kernel")],
     observe=["mc_tpeak_cens", "_ftpt0_kernel"])
prop(id="P29", title="Every fit's objective is the mean squared error of the model it fits",
     statement="The objective of every fit in the package is the mean squared difference (mean absolute for the flexible "
               "peak-time model) between the data and the prediction of the model being fit at the parameters it is given, "
               "summed over data sets for global fits, and its gradient is the derivative of that.  What the "
               "optimizer returns is handed back, converted to physical parameters where the fit was done in unbounded ones.",
     quant="every parameter vector, every data within the stated size, every optimizer outcome",
     tests="Only the single-halo objective is exercised; eight of the global fits raised an error on every call.",
     files=[FH + "diffmah_fitter_helpers.py", PK + "bimod_logm0_kernels/logm0_c0_early.py",
            PK + "bimod_logm0_sats/logm0_c1_late.py", PK + "early_index_alpha.py", PK + "logtc_early.py",
            TK + "tp_pdf_cens.py", TK + "tp_pdf_cens_flex.py", TK + "utp_pdf_kernels.py"],
     mech=[("single halo", FH + "diffmah_fitter_helpers.py:log_mah_loss_uparams"),
           ("global fits", PK + "bimod_logm0_kernels/logm0_c0_early.py:global_loss_kern"),
           ("components", PK + "logtc_early.py:_loss_kern")],
     observe=["diffmah_fitter", "fit_global_c0_model", "fit_global_c1_model", "t_peak_fitter", "t_peak_cens_fitter"])
FS = "scripts/fitting_scripts/"
DT = "scripts/diffmahpop_tabulation/"
prop(id="P30", title="Batch fits on any number of ranks keep one row per halo, in order",
     statement="Whatever the number of ranks and the order in which they run, the batch fitting scripts fit every halo of every "
               "requested subvolume and chunk exactly once, against its own cumulative history and times.  The collated file "
               "has one row per halo in input order with that halo's own result (and identifier), for ranks with several, one "
               "or no halos, and per-rank files are removed only after they were collated.  Chunks of a subvolume are joined "
               "in their order without loss.",
     quant="every mass history and rank count within the stated size, every order in which the ranks run",
     tests="No test runs any of the scripts; ranks with one or no halo crashed them.",
     files=[FS + f for f in ("bolshoi_planck_fitting_script.py", "galacticus_diffmah_fitter_script.py",
                             "hacc_discovery_sims_diffmah_fitter_script.py", "hacc_lastjourney_diffmah_fitter_script.py",
                             "tng_diffmah_fitter_script.py", "unchunk_last_journey_script.py")] + [FH + "diffmah_fitter_helpers.py"],
     mech=[("per-rank output", FS + "tng_diffmah_fitter_script.py"), ("collation", FH + "diffmah_fitter_helpers.py:write_collated_data"),
           ("chunks", FS + "unchunk_last_journey_script.py")],
     observe=["tng_diffmah_fitter_script", "hacc_lastjourney_diffmah_fitter_script", "bolshoi_planck_fitting_script"],
     over=["inputs", "configurations", "schedules"], note=PYNOTE, technique=PYTECH)
prop(id="P31", title="Tabulated samples and targets hold exactly each bin's halos",
     statement="For each bin of mass and observation time the tabulation keeps exactly the successfully fit halos whose mass at "
               "that time lies in the bin, up to the stated number per subvolume and of every subvolume of the range, and "
               "files them as centrals or satellites by their host at the nearest snapshot.  The tabulated targets of a bin "
               "are the mean, the scatter and the peaked fraction of those same halos' histories, rescaled where asked to the "
               "bin's mass, at times ending at the bin's own time and labelled with its own mass and time.",
     quant="every set of fits, fit failures, hosts, snapshot times and masses within the stated size",
     tests="No test runs the tabulation; it called the mass history with an obsolete signature and could not run.",
     files=[DT + "smdpl_diffmahpop_utils.py", DT + "measure_smdpl_diffmahpop.py"],
     mech=[("selection", DT + "smdpl_diffmahpop_utils.py:get_target_mah_params"),
           ("samples", DT + "smdpl_diffmahpop_utils.py:smdpl_diffmahpop_subvolume_loop"),
           ("targets", DT + "smdpl_diffmahpop_utils.py:tabulate_target_means_vars")],
     observe=["smdpl_diffmahpop_subvolume_loop", "tabulate_target_means_vars"],
     over=["inputs", "configurations"], note=PYNOTE, technique=PYTECH)
