"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Free-parameter array and named parameters stay coherent",
     "At any point of a session the array of free parameters, the list of their names and the named parameter values describe the same point: entry i of the array is the value of the i-th listed name, setting an array and reading it back (by array or by name) returns the same values, and every parameter has a place of its own. Parameters that are not free are never changed by setting an array, and an array of the wrong length is refused.",
     ["histories", "configurations"], "every sequence of setting arrays, editing named values, changing which parameters vary, re-synchronising, evaluating, printing, saving and copying, over all bases, planets, trends, instruments and extra parameters",
     "Tests fit three example setups and never interleave edits, vary changes and array updates, nor look at which name an array entry belongs to.",
     ["radvel/model.py", "radvel/likelihood.py", "radvel/posterior.py"],
     [("row per parameter", "model.Vector.init_index_dict"), ("free rows", "likelihood.Likelihood.list_vary_params"),
      ("array write", "likelihood.Likelihood.set_vary_params")],
     [("vector", "value, vary, step, linear per parameter", "model.Vector.vector"), ("indices", "row of each name", "model.Vector.indices"),
      ("vary_params", "rows of the free parameters", "likelihood.Likelihood.vary_params")],
     ["set_vary_params", "get_vary_params", "name_vary_params", "params[...].value"])

prop("C02", "Evaluations depend only on the current parameters, not on history",
     "The log-probability, residuals, model velocities, information criteria and Gaussian-process predictions returned by a likelihood or posterior are functions of its data and current parameter values alone. Whatever sequence of evaluations, predictions, array updates, vary changes, saves and copies came before, they equal what a freshly built object with the same parameters returns, and evaluating never changes the data or any free or fixed parameter value (an analytically solved offset excepted).",
     ["histories", "configurations"], "every history of operations on one object (several likelihood kinds, composites, trends) up to the bounds of the model",
     "Tests evaluate fresh objects once; stale caches, aliased buffers and leftover state need a history.",
     ["radvel/likelihood.py", "radvel/gp.py", "radvel/model.py", "radvel/posterior.py"],
     [("kernel refresh", "likelihood.GPLikelihood.update_kernel_params"), ("distances restored after prediction", "likelihood.GPLikelihood.predict"),
      ("linear offset", "likelihood.RVLikelihood.residuals")],
     [("kernel.dist", "lag matrix of the last use", "gp.Kernel"), ("covmatrix", "last covariance", "gp.Kernel")],
     ["logprob", "residuals", "predict", "bic", "aic", "model(t)"])

prop("C03", "Gaussian likelihood of each instrument and of the composite",
     "The log-likelihood of a velocity data set is the Gaussian log-density of the data minus model, minus the instrument's own offset and decorrelation terms, with variance the squared error bar plus the squared jitter of that instrument; a fixed linear offset is marginalised analytically. The composite log-likelihood is the sum over instruments, residuals and error bars are the instruments' own in data order, and BIC and small-sample AIC follow from it with the number of free parameters and of data.",
     ["inputs", "configurations"], "all data sets, parameter values, numbers of instruments, suffixes, decorrelation variables and orderings",
     "Tests compare a handful of fits with loose tolerance and never check the likelihood value for several instruments, linear offsets or decorrelation.",
     ["radvel/likelihood.py", "radvel/posterior.py"],
     [("Gaussian density", "likelihood.loglike_jitter"), ("offset, decorrelation", "likelihood.RVLikelihood.residuals"), ("marginal", "likelihood.RVLikelihood.logprob"),
      ("sum", "likelihood.CompositeLikelihood.logprob")], observe=["logprob", "residuals", "errorbars", "bic", "aic"])

prop("C04", "Model velocities are the sum of Keplerian orbits and the trend",
     "The model velocity at any time is the sum over planets of the Keplerian radial velocity for that planet's elements plus the linear and quadratic trend about the reference time; asking for one planet gives that planet's orbit (plus the trend) only. This holds for every eccentricity from 0 up to 0.99, any time and any order of times, whichever of the compiled and pure-Python solvers computes it, and shifting a time by whole periods does not change a planet's contribution. To the velocities of a user's own forward model the same trend is added, and what that model returned is left unchanged.",
     ["inputs", "configurations"], "all times, orbital elements, bases, numbers of planets, trends, reference times and both Kepler solvers",
     "Tests check the solver on one grid and the models only through fits of three systems.",
     ["radvel/model.py", "radvel/kepler.py", "src/kepler.c", "src/_kepler.pyx", "radvel/orbit.py"],
     [("superposition", "model._standard_rv_calc"), ("trend", "model.GeneralRVModel.__call__"), ("Kepler solver in C", "src/kepler.c"), ("Kepler solver in Python", "kepler.kepler")],
     observe=["RVModel(t)", "RVModel(t, planet_num=)", "kepler.rv_drive", "kepler.kepler", "orbit.true_anomaly"])

prop("C05", "Changing the orbital basis preserves the orbit",
     "Converting orbital parameters from any supported basis to any other, directly or through any chain of conversions, and for parameter sets, parameter vectors and tables of samples alike, yields parameters that describe the same orbit; non-orbital parameters, fixed flags and step sizes of untouched parameters, the number of planets and the planet letters are carried over. The result contains exactly the target basis' parameters when the old ones are not kept, and the input is left unchanged.",
     ["inputs", "histories", "configurations"], "all ordered pairs and chains of the supported bases, all elements, numbers of planets and containers",
     "Tests convert one parameter set per basis once and check only that it runs or one value.",
     ["radvel/basis.py", "radvel/model.py"],
     [("to synthesis basis", "basis.Basis.to_synth / v_to_synth"), ("from synthesis basis", "basis.Basis.from_synth / v_from_synth")],
     observe=["to_synth", "from_synth", "to_any_basis", "v_to_synth", "v_from_synth", "v_to_any_basis"])

prop("C06", "Conjunction and periastron times convert exactly and physically",
     "Converting a time of conjunction to a time of periastron and back returns the same instant, and at the time of conjunction the planet's true anomaly plus argument of periastron is 90 degrees (270 degrees for secondary eclipse, which falls within the period after the periastron it is computed from); the mean, eccentric and true anomalies at any time satisfy Kepler's equation. This holds for scalars and for arrays element by element.",
     ["inputs"], "all periods, eccentricities in [0, 1), arguments of periastron in any range, scalar and array inputs",
     "Tests call these functions at a few values and never on arrays for secondary eclipse.",
     ["radvel/orbit.py", "radvel/kepler.py"], [("conjunction geometry", "orbit.timetrans_to_timeperi, orbit.timeperi_to_timetrans"), ("true anomaly", "orbit.true_anomaly")],
     observe=["orbit.timetrans_to_timeperi", "orbit.timeperi_to_timetrans", "orbit.true_anomaly"])

prop("C07", "Priors are supported where declared and have the declared density",
     "Every prior returns the logarithm of its declared density inside its support and minus infinity outside it, as a function of the current value of the named parameter (eccentricity and amplitude priors of the orbit the basis describes, in every basis and for exactly the planets named). Densities of bounded and Gaussian priors integrate to one.",
     ["inputs", "configurations"], "all parameter values including the bounds themselves, prior settings, bases and planet selections",
     "Tests evaluate each prior at one interior value in one basis.",
     ["radvel/prior.py"], [("prior density", "prior.*.__call__")], observe=["Prior(params, vector)"])

prop("C08", "Prior transforms draw from the priors they belong to",
     "For every prior usable in nested sampling the transform of a probability u is the value whose prior cumulative probability is u: monotone, inside the support, and hitting the bounds at 0 and 1. A posterior's transform applies each free parameter's own transform in the order of the free-parameter array, models whose free parameters lack exactly one transforming prior (or whose fixed parameters have one) are refused, and prior plus likelihood are split so that transform-prior density times sampled likelihood is the posterior.",
     ["inputs", "configurations"], "all prior settings, probabilities, combinations of priors over free and fixed parameters and instruments",
     "Tests run whole samplers on one example and check that they finish.",
     ["radvel/prior.py", "radvel/posterior.py"], [("inverse CDF", "prior.*.transform"), ("assembly", "posterior.Posterior.prior_transform"), ("validation", "posterior.Posterior.check_proper_priors"),
     ("extra constraints", "posterior.Posterior.extra_likelihood")], observe=["transform", "prior_transform", "check_proper_priors", "likelihood_ns_array", "extra_likelihood_array"])

prop("C09", "The posterior is the likelihood times every attached prior",
     "The log-posterior is the sum of the log-densities of all attached priors and the log-likelihood at the same parameter values, and minus infinity when any prior excludes the point; values evaluated through the array interface, the named interface and their negatives agree. Adding, removing or reordering priors changes the value by exactly those priors' terms.",
     ["inputs", "configurations", "histories"], "all multisets of priors, parameter values inside and outside supports, likelihood kinds and orders of evaluation",
     "Tests never compare a posterior value with its parts.",
     ["radvel/posterior.py", "radvel/prior.py", "radvel/likelihood.py"], [("sum", "posterior.Posterior.logprob"), ("array interface", "posterior.Posterior.logprob_array")],
     observe=["Posterior.logprob", "logprob_array", "neglogprob_array"])

prop("C10", "Saved, loaded and copied posteriors are equivalent and independent",
     "A posterior written to disk and loaded, or deep-copied, at any point of a session returns the same values for every evaluation, has the same parameters, flags, step sizes, offsets marked linear, priors, data and planet naming, and can be saved again. From then on original and copy are independent: no operation on one changes anything observable of the other.",
     ["histories", "configurations"], "every interleaving of save, load, copy, edits and evaluations on the original and the copies, over likelihood kinds and priors",
     "Tests load a fitted posterior once inside the pipeline and never compare it with the original.",
     ["radvel/posterior.py", "radvel/model.py"], [("pickle", "posterior.Posterior.writeto, posterior.load"), ("parameter pickling", "model.Parameters.__reduce__")],
     observe=["Posterior.writeto", "posterior.load", "copy.deepcopy"])

prop("C11", "MCMC stops only when mixed, discards burn-in, and keeps going otherwise",
     "A Markov-chain run advances every ensemble by the requested check interval between convergence checks, every round continuing from where the last one ended, for the nearest whole number of intervals (at least one) to the requested steps. It stops earlier only as converged: after the minimum number of steps (or percentage of the run) and when two consecutive checks found the chains well mixed. When the burn-in criterion is first met (unless disabled) everything sampled before is discarded and sampling restarts from the current positions, so that the result holds exactly the samples drawn since then, each once. Every check shows the progress and the convergence figures found at that check, and however the run ends, by an error too, the terminal is given back as it was.",
     ["histories", "schedules", "configurations"], "every sequence of outcomes of the convergence checks, and all settings of ensembles, steps, check intervals, minimum steps, and thresholds",
     "Tests run a few very short chains whose convergence history is whatever it happens to be.",
     ["radvel/mcmc.py"], [("run loop", "mcmc.mcmc"), ("check", "mcmc.convergence_check")],
     [("burn_complete, mixcount, ismixed", "run state", "mcmc.StateVars")], ["mcmc()", "sampler calls"])

prop("C12", "MCMC output is aligned, complete and can be continued",
     "The returned table has one row per retained sample of every walker of every ensemble, its columns are the free parameters in order plus the log-probability, and each row's log-probability is that of the posterior at the row's values; thinning keeps every k-th sample. A saved run that is continued starts from the saved positions and keeps the saved samples in front of the new ones, and a saved file of a different configuration is refused without being changed. After every check the saved file holds the run's samples as they are at that check and nothing of another run, so that a run that is interrupted or killed leaves the whole of its last check.",
     ["histories", "configurations", "crash_points"], "all posteriors, ensemble and walker counts, thinning, save and continue histories",
     "Tests check only that calls finish.",
     ["radvel/mcmc.py"], [("assembly of chains", "mcmc.mcmc"), ("initial positions", "mcmc.mcmc"), ("save file", "mcmc.convergence_check")],
     observe=["mcmc() result", "saved chain file"])

prop("C13", "Convergence statistics are the published ones, combined conservatively",
     "For any chains the Gelman-Rubin statistic and the effective number of independent draws are computed per parameter by the formulas of Ford (2006) from the variances within and between ensembles. Chains count as well mixed only if every parameter of every ensemble satisfies all the thresholds (Gelman-Rubin, independent draws, autocorrelation factor and its relative change); a parameter that never moved, or a statistic that cannot be computed, is not mixed.",
     ["inputs", "configurations"], "all chains (constant, equal, drifting, offset), numbers of ensembles and thresholds, and all combinations of thresholds met and missed",
     "Tests never compare the statistics with independent values nor try each threshold alone.",
     ["radvel/mcmc.py"], [("Gelman-Rubin and independent draws", "mcmc.convergence_calculate"), ("check", "mcmc.convergence_check")],
     observe=["convergence statistics", "mixed verdict"])

prop("C14", "Nested-sampling runs honour the run protocol for every sampler",
     "For each supported sampler a run uses the posterior's own prior transform and likelihood over the free parameters in order, passes the user's sampler and run options on unchanged, refuses options it reserves, leaves the caller's options as they were, and never overwrites the results of an existing run unless told to overwrite or resume; resuming continues the sampler's own checkpoint when there is one. The result reports the sampler's equally weighted samples and evidence, with each row's log-probability that of the posterior at the row's values, loading a saved run reproduces it, and nothing outside the output directory is changed.",
     ["configurations", "histories"], "all samplers, option combinations and states of the output directory, and repeated runs",
     "Tests run some samplers once on one problem and check that output exists.",
     ["radvel/nested_sampling.py", "radvel/posterior.py"], [("dispatch", "nested_sampling.run"), ("per-sampler runs", "nested_sampling.run_*"), ("loading", "nested_sampling.load_results")],
     observe=["nested_sampling.run", "nested_sampling.load_results", "calls to the sampler"])

prop("C15", "Model comparison fits exactly the requested alternatives",
     "Comparing models over any requested set of features fits every combination of switching the free features among them off (each subset of planets, each planet's eccentricity, the quadratic and then the linear trend, all jitters together, the Gaussian process) exactly once, with the switched-off parameters fixed at their null values and all others as in the input. Each entry reports the free features, number of data and free parameters, residual scatter, log-likelihood (without priors), BIC and AICc of its own fit; every call starts afresh and leaves the posterior it was given unchanged.",
     ["configurations", "inputs"], "all subsets of comparison features over models with any numbers of planets, bases, fixed parameters, trends, jitters and Gaussian processes",
     "Tests call one comparison per feature and check that a list comes back.",
     ["radvel/fitting.py"], [("recursive enumeration", "fitting.model_comp")], observe=["model_comp", "calls to the optimiser"])

prop("C16", "Pipeline steps are gated by, and recorded in, the run's status",
     "Each command-line step that needs an earlier one runs only if the status file says that step has been done, otherwise it stops without changing anything. A completed step records its outcome and files without touching what other steps recorded, except that a new sampling run marks the quantities derived from the run it replaces as out of date. A later step reads the results of the sampler it was asked for (by default MCMC's when there are any, otherwise nested sampling's), and quantities derived from one sampling run are never combined with the samples of another. Options given on the command line reach the step and its figures unchanged.",
     ["histories", "configurations"], "every order and repetition of the steps and options, including restarts in a fresh process",
     "Tests run each example through one fixed order.",
     ["radvel/driver.py", "radvel/cli.py"], [("status file", "driver.save_status / load_status"), ("gates", "driver.*"), ("options", "cli.main")],
     observe=["status file", "step outcome", "files recorded in the status"])

prop("C17", "Gaussian-process noise models condition on exactly their own data",
     "A Gaussian-process likelihood is the multivariate-normal log-density of the residuals with covariance the named kernel at the current hyperparameters plus the squared error bars and jitter on the diagonal, whatever the order of the data. Its predictions are the conditional mean and standard deviation at the requested times, residuals subtract that mean, and instruments with separate hyperparameters do not affect each other; the fast approximate solver computes the density and prediction of its own kernel.",
     ["inputs", "configurations", "histories"], "all kernels, hyperparameters, data orders, prediction times and composites",
     "Tests check kernels at one matrix and the likelihood only through fits.",
     ["radvel/likelihood.py", "radvel/gp.py"], [("kernels", "gp.*Kernel"), ("density and prediction", "likelihood.GPLikelihood, likelihood.CeleriteLikelihood")],
     observe=["logprob", "predict", "residuals", "compute_covmatrix"])

prop("C18", "Binning conserves information and never mixes instruments",
     "Binning in time assigns every measurement to exactly one bin of the requested width, each bin reports the inverse-variance weighted mean time and value and the corresponding uncertainty of its members, and measurements of different instruments never share a bin; the result does not depend on the order of the input, which is left unchanged. Labels, times, values and uncertainties of the output belong together.",
     ["inputs"], "all data sets, orders, duplicates, widths and instrument assignments",
     "Tests bin only inside plotting calls.",
     ["radvel/utils.py"], [("time bins", "utils.timebin"), ("per instrument", "utils.bintels"), ("equal bins", "utils.fastbin")], observe=["timebin", "bintels", "fastbin"])

prop("C19", "Setup files yield a model of exactly the data and parameters they declare",
     "Loading a setup file builds one likelihood per declared instrument holding exactly that instrument's rows with time, velocity and uncertainty together, in a model with the declared basis, reference time, parameters, fixed flags, step sizes, noise model and priors. Data of undeclared instruments is not used, logarithmic jitters become the jitters they are the logarithm of, a declared instrument without data or without an offset parameter or a fitting basis other than the parameters' is refused, and loading the same file again gives an equal posterior.",
     ["inputs", "configurations"], "all data tables (row orders, duplicated index values, extra instruments), instruments, noise models and options",
     "Tests load the three example files.",
     ["radvel/utils.py"], [("loader", "utils.initialize_posterior")], observe=["initialize_posterior"])

prop("C20", "Derived planet properties follow from each sample and are consistent",
     "Derived quantities of every sample are computed from that sample's own orbit and stellar mass: the minimum mass inverts the amplitude formula for any mass ratio, the semi-major axis obeys Kepler's third law with the right units, and the bulk density is mass over volume. The number and order of the samples are preserved and a planet's quantities depend only on that planet's parameters.",
     ["inputs"], "all amplitudes, periods, eccentricities, stellar and planet masses and radii, in both unit systems, scalar and array",
     "Tests check nothing but that the derive step runs.",
     ["radvel/utils.py", "radvel/driver.py"], [("amplitude and mass", "utils.semi_amplitude, utils.Msini"), ("size", "utils.semi_major_axis, utils.density"), ("step", "driver.derive")],
     observe=["semi_amplitude", "Msini", "semi_major_axis", "density", "derive"])

prop("C21", "Summaries report the right statistics with the right precision",
     "Reported medians and intervals are the 50, 15.9 and 84.1 percentiles of the samples (angles unwrapped about their mode, samples left unchanged), rounding keeps the requested number of significant digits for every magnitude and sign, and values printed with uncertainties carry consistent digits that still equal the value to that precision. The tables of a report show every parameter of the fit and no other in its own row with its own label and units, the priors in force, the derived quantities in the units named beside them, and the compared models from the best to the worst.",
     ["inputs"], "all sample sets, magnitudes, signs, angles near the wrap and formatting cases",
     "Tests compile reports and do not read the numbers.",
     ["radvel/utils.py", "radvel/report.py"], [("percentiles", "utils.geterr"), ("rounding", "utils.round_sig, utils.sigfig")], observe=["geterr", "round_sig", "sigfig"])

prop("C22", "Dates, phases and working directories convert and restore exactly",
     "Calendar dates and Julian dates convert into each other without loss beyond floating point, orbital phases lie in [0, 1), are zero at the reference event, and advance by one per period for every sample time; doubling the phase range appends the same phases plus one. A temporary change of working directory is undone whatever happens inside it.",
     ["inputs", "fault_sequences"], "all dates, times, periods, parameter sets, and ways of leaving the directory context including nested ones and errors",
     "Tests convert one date and never raise inside the context.",
     ["radvel/utils.py"], [("dates", "utils.date2jd, utils.jd2date"), ("phase", "utils.t_to_phase, utils.t_to_phase_vector"), ("directory", "utils.working_directory")],
     observe=["date2jd", "jd2date", "t_to_phase", "t_to_phase_vector", "working_directory"])

prop("C23", "A maximum-a-posteriori fit ends at the optimiser's best point and changes nothing else",
     "A maximum-a-posteriori fit minimises the negative log-posterior over the free parameters starting from their current values, and ends with exactly the free parameters set to the optimiser's answer, in the parameter vector and in the named values alike, whichever point it evaluated last. The result is never less probable than the start, and with a smooth posterior and the built-in optimiser it is a maximum of it in every free parameter; fixed parameters, fixed flags, step sizes, priors and data stay as they were, and the log-probability afterwards is that of the values shown.",
     ["histories", "configurations", "inputs"], "every history of points an optimiser evaluates before it answers, over all models, bases, noise models and sets of free parameters",
     "Tests run fits with one optimiser and check at most that they finish or come close.",
     ["radvel/fitting.py"], [("fit", "fitting.maxlike_fitting")], observe=["maxlike_fitting", "calls to the optimiser", "logprob after the fit"])

prop("C24", "Figures and drawn models show exactly the data, model and samples they are given",
     "In a figure of a posterior every instrument's measurements appear once per panel (twice when folded) at their own times or phases and with their own error bars (uncertainty and jitter): in the panel of the data as velocities less offset and ancillary trends, in the panel of residuals also less the model and noise model, in a planet's panel as residuals plus that planet's orbit alone; curves and uncertainty bands are the model of the same parameters at the times they are drawn at. Options subtract exactly what they say, captions, legends, binned points, highlighted points and axis limits show the values they name, and figures of samples show every sample under its own parameter. Models drawn from samples are the model at sampled rows. The posterior, samples and options passed in stay as they were.",
     ["configurations", "inputs"], "all posteriors (planets, bases, trends, instruments, noise models) and pairs of figure options, tables of samples and their row labels",
     "Tests draw a few figures and check at most that a file appears.",
     ["radvel/plot/orbit_plots.py", "radvel/plot/mcmc_plots.py", "radvel/plot/__init__.py", "radvel/utils.py"],
     [("orbit figures", "orbit_plots.MultipanelPlot, orbit_plots.GPMultipanelPlot"), ("points", "plot.telplot, plot.mtelplot"),
      ("samples", "mcmc_plots.TrendPlot, CornerPlot, DerivedPlot, AutoPlot"), ("drawn models", "utils.draw_models_from_chain")],
     observe=["plot_multipanel", "matplotlib artists of every panel", "draw_models_from_chain"])

NOTES = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    have = [p["id"] for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    checks = []
    for i in have:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": t, "level": "model_checking", "level_note": n})
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")}
                              for p in P if p["id"] not in have],
           "notes": "TLA+ specification in spec/, checked with TLC; conformance harness in harness/ and checks/. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
