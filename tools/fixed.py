"""Writes the `fixed` list of known_findings.json from /repo's fix commits (see FIXES)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = {  # subject -> (property, what failed)
 "Posterior.aic returns the AICc": ("C03", "Posterior.aic raised a TypeError-like wrapper instead of returning the value"),
 "decorrelate each variable": ("C03", "several decorrelation variables used the wrong coefficients, none applied with linear gamma"),
 "give every parameter its own row": ("C01", "parameters that are not orbital, offset or GP names had no row or shared one"),
 "CompositeLikelihood holds the measured": ("C03", "composite y held only part of the measured velocities"),
 "v_from_synth frees the converted": ("C05", "v_from_synth to 'per tc e w k' reset flags and step of w, which it does not convert"),
 "from_synth(keep=False) leaves exactly": ("C05", "stale keys of the old basis stayed; tables raised KeyError/AttributeError"),
 "from_synth leaves the basis": ("C05", "from_synth renamed the basis object it was called on, i.e. that of the input"),
 "secondary eclipse follows periastron": ("C06", "secondary eclipse up to a period late for scalars, ValueError for arrays"),
 "PositiveKPrior reads ln K": ("C07", "PositiveKPrior excluded every orbit with K < 1 m/s in the bases that use ln K"),
 "SecondaryEclipsePrior compares with": ("C07", "eclipses a period away were compared; unusable in nested sampling"),
 "nested sampling accounts for numerical": ("C08", "NumericalPrior and UserDefinedPrior were dropped from the nested-sampling likelihood"),
 "QuasiPerKernel without amplitude": ("C17", "with zero amplitude the likelihood used a stale covariance (or None) and predictions failed"),
 "CeleriteLikelihood.predict works with zero": ("C17", "predictions were NaN for a negative jitter"),
 "CeleriteLikelihood.predict accepts times": ("C17", "predictions at unsorted times were wrong"),
 "evaluating a GP likelihood leaves": ("C02", "evaluating wrote the vector's hyperparameters over edited named values"),
 "CeleriteLikelihood factorises the kernel": ("C17", "unsorted data with unequal errors or jitters gave a wrong density and prediction"),
 "Msini converges for any mass ratio": ("C20", "Msini returned an unconverged mass for massive companions, and failed for scalars mixed with arrays"),
 "geterr unwraps angles on a copy": ("C21", "geterr(angular=True) changed the caller's samples"),
 "date2jd keeps fractions": ("C22", "date2jd dropped microseconds"),
 "t_to_phase works in the bases": ("C22", "t_to_phase raised KeyError in the bases with ln P"),
 "phases stay below one just before": ("C22", "phase 1.0 just before the reference event"),
 "model_comp starts from an empty list": ("C15", "the mutable default list made a second comparison include the first one's entries"),
 "comparing models without the Gaussian": ("C15", "the alternative without the Gaussian process left its hyperparameters free and refitted the input posterior"),
 "model comparison reports the likelihood": ("C15", "the reported log-likelihood included the priors, unlike the BIC and AICc beside it"),
 "ic --fixjitter": ("C15", "--fixjitter set the flags of the named values only, so the jitters stayed free in the vector"),
 "maxlike_fitting ends at": ("C23", "the parameters were left at the last point evaluated when the optimiser answered another"),
 "mcmc runs exactly the requested steps": ("C11", "each round restarted from the first sample of the last one and stored it twice; checkinterval=1 divided by zero; the run overshot the requested steps"),
 "a check made too early": ("C11", "mixed, too early, mixed counted as two consecutive well-mixed checks"),
 "mcmc saves whole checks": ("C12", "the save file was never closed: unreadable after a kill, kept ensembles of an earlier run, and continuing into the same file failed"),
 "interrupting a headless": ("C12", "Ctrl-C outside a terminal raised curses.error"),
 "convergence statistics follow Ford": ("C13", "Tz was computed with a variance of means divided twice; single-ensemble and stuck-parameter chains counted as mixed"),
 "nested sampling leaves the caller's options": ("C14", "the caller's dictionaries were changed, so that a second run with them was refused"),
 "dynesty resumes only": ("C14", "proceed without a checkpoint asked a new sampler to resume and raised AttributeError"),
 "dynesty accepts an existing": ("C14", "an existing output directory without checkpoint raised FileExistsError"),
 "multinest uses a temporary directory": ("C14", "a directory tmpdir of the user was deleted"),
 "setup files with logarithmic jitters": ("C19", "loading a setup with logjit parameters raised RuntimeError"),
 "radvel ic without --type failed": ("C16", "bare radvel ic compared the letters of 'trend' and was refused"),
 "derived table was empty": ("C16", "radvel table -t ic_compare derived wrote a derived table without rows"),
 "plot of derived parameters ignored": ("C16", "radvel plot -t derived --sampler plotted the parameters derived from the other sampler"),
 "derived parameters were combined": ("C16", "tables and reports joined derived parameters of one sampling run to the chains of another"),
 "GPLikelihood.logprob returns -inf": ("C17", "a singular covariance raised AttributeError instead of a log-probability of minus infinity"),
 "draw_models_from_chain drew": ("C24", "every drawn model was the model at the same parameters, and the model's parameters were overwritten"),
 "the trend was added into": ("C04", "the array a custom forward model returned was changed in place, and integer arrays failed"),
 "DerivedPlot converted": ("C24", "the caller's samples were multiplied in place, so that a second table or figure showed other units"),
 "MultipanelPlot failed for posteriors": ("C24", "KeyError when dvdt or curv is not declared"),
 "GPMultipanelPlot added the GP mean": ("C24", "the GP mean was added to the stored orbit model, and limits did not follow the data shown"),
 "GPMultipanelPlot drew the orbit": ("C24", "with subtract_orbit_model instruments without GP kept the orbit curve"),
 "GPMultipanelPlot.plot_multipanel ignored": ("C24", "nophase was ignored and None returned"),
 "plots failed for telfmts": ("C24", "KeyError for formats without a color, IndexError beyond nine unknown instruments, the caller's formats were changed"),
 "GPMultipanelPlot with separate": ("C24", "set_xlim ignored, ValueError without planets"),
 "GPMultipanelPlot plotted the calendar": ("C24", "a line at velocity 2000 and more"),
 "plot_multipanel without letter": ("C24", "UnboundLocalError with letter_labels=False"),
 "GPMultipanelPlot could not draw": ("C24", "separate_orbit_gp with subtract_gp_mean_model raised ValueError"),
 "masses of derived tables and plots": ("C21", "M sin i above 100 Earth masses was printed 0.12% too large in Jupiter masses (also C24)"),
 "labels of GP hyperparameters": ("C21", "KeyError for gp_*_NAME9 beyond the planets, label of a planet otherwise"),
 "report showed the parameters of another": ("C21", "the rows of gamma_k and jit_k showed those of k1"),
 "an error in mcmc left": ("C11", "after an error in a run the terminal stayed without echo and in raw mode"),
 "plots with set_xlim drew": ("C24", "with times already less the epoch the curve was drawn elsewhere"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
path = os.path.join(V, "known_findings.json")
doc = json.load(open(path))
doc["fixed"] = []
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if s.startswith("fix: "):
        m = [v for k, v in FIXES.items() if s[5:].startswith(k)]
        assert m, s
        doc["fixed"].append("fixed: property=%s %s %s" % (m[0][0], h, m[0][1]))
json.dump(doc, open(path, "w"), indent=1)
