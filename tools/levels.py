NA = {}
TERM = "TLA+ specification enumerated by TLC; emitted terms replayed against the real code"
GRAPH = "TLA+ state machine explored exhaustively by TLC; every transition replayed in the real code"
NOTES = {
 "C03": (TERM, "Every configuration in the bounded space is built for real and compared at seeded parameter values; trusts harness/terms.py, numpy and the listed tolerances."),
 "C04": (TERM, "Bases x planets x trends x eccentricity regimes x time layouts; both solvers; tolerance from the conditioning of the orbit."),
 "C05": (GRAPH, "Every chain of conversions up to depth 3 (4 thorough) over bases and containers; quick samples the third steps."),
 "C06": (TERM, "Exact lattice of circular orbits decided by TLC plus regimes of eccentric orbits by terms."),
 "C07": (TERM, "Every prior class x shapes x inside/at/outside the support; composite priors in every basis; densities integrated numerically against the specified CDF."),
 "C08": (TERM, "Quantile terms on a grid of u incl. 0 and 1, posterior transforms over every catalogue configuration, and the split density identity."),
 "C09": (GRAPH, "Every list of up to 2 (3 thorough) of 8 attached priors with repetition and 6 points; values through every interface against the specified sum."),
 "C17": (TERM, "Kernels x composites (shared, separate, mixed hyperparameters) x data orders x degenerate hyperparameters; density, covariance, conditional mean and variance at six kinds of prediction times."),
 "C01": (GRAPH, "Every transition of the session machine (two groups of parameters, two values, flags, cached lists); thorough adds every array interface."),
 "C02": (GRAPH, "Session states paired with the last evaluation, so every ordered pair of operations and evaluations occurs; plus random long walks."),
 "C10": (GRAPH, "Two posteriors and a file; quick explores three groups of operations, thorough all together."),
 "C18": (GRAPH, "Every data set of up to 4 (5 thorough) measurements on a lattice of times, errors and instruments, all orders, widths; fastbin by its own specification."),
 "C20": (TERM, "SI formulas as terms over mass ratios, eccentricities, array and scalar arguments, and derived tables of posteriors in every basis."),
 "C21": (TERM, "Quantile, rounding and circular statistics as exact lattice specifications, compared with the tables written for samples in every basis."),
 "C22": (TERM, "Date, phase and working-directory specifications on a lattice in microdays; nested directories as a state machine."),
 "C15": (GRAPH, "The enumeration of alternatives is a TLA+ state machine over the catalogue of models; each is replayed with a scripted optimiser, so every fit's fixed parameters, values and statistics are compared."),
 "C23": (GRAPH, "Every optimiser history of up to 3 (4 thorough) evaluations over 3 points and its answer, replayed with a scripted optimiser over the catalogue; plus fits with the real one."),
 "C11": (GRAPH, "Every history of check outcomes up to 5 (7 thorough) checks over settings of burn-in, minimum steps, intervals and ensembles, replayed through mcmc() with emcee's sampler recorded and its autocorrelation scripted; trusts emcee."),
 "C12": (GRAPH, "Run/save/continue/interrupt/kill histories as a state machine, replayed with real files; the tables compared with fresh posteriors."),
 "C13": (TERM, "Ford's formulas as terms over enumerated chain shapes (constant, equal, drifting, offset, few ensembles), and every combination of thresholds met and missed."),
 "C14": (GRAPH, "Every history of up to 3 runs over an output directory for all samplers, replayed with stand-ins bound to the real packages' signatures; a few histories with the real packages. pymultinest is not installed."),
 "C19": (TERM, "Data tables of up to 4 (5 thorough) rows x declared instruments x noise models x refused setups, each written out and loaded; every history of loading, editing and rewriting files up to 4 (5) steps. The data table is a pandas frame with the default or a foreign index; reading csv files is the setup file's own business."),
 "C16": (GRAPH, "148 states x 80 steps of one star (11840 transitions; all pairs of plot and table types in thorough) replayed through the command line with real fits and samplers, two stars interleaved in one directory, plus every choice of up to two mcmc options; quick samples the walks. Plots and LaTeX are stand-ins; a failed or killed step in the middle of writing its files is not covered."),
 "C24": (TERM, "Every pair of figure options over ten posteriors (one posterior per pair in quick, all in thorough), sample figures and draws; the artists of the real off-screen figures are compared with the specified points, curves, bands, limits and captions. Fonts, sizes and ticks are unspecified."),
}
