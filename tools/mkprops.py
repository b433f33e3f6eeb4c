"""Generates properties.jsonl (single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": False}})


prop("C01", "LS-NMF step: published update, non-negative, caller data untouched",
     """One least-squares update returns, for every data, weight and factor matrix of agreeing shapes, exactly the
     weighted multiplicative update (profiles first, then contributions computed with the new profiles): each entry is
     its old value times the ratio of the weighted back-projections of the data and of the current reconstruction.
     For non-negative data without an all-zero row or column and positive
     factors the results are non-negative; the shapes are preserved, holding the profiles returns them
     unchanged, and none of the four input matrices is modified.""",
     ["inputs"], "all m,n,k >= 1, all real V, all positive weights, all positive W,H, both hold settings",
     "the stable tests run one update on one fixed random matrix and compare only the shape and a loss threshold",
     ["esat/model/ls_nmf.py"], [("multiplicative update", "esat/model/ls_nmf.py:LSNMF.update")],
     ["return value of the update step"])
prop("C02", "LS-NMF step never increases the weighted least-squares loss",
     """For non-negative data without an all-zero row or column and positive factors, every least-squares update leaves the weighted squared residual sum
     (the quantity reported as Q(true)) less than or equal to its value before the update, whether or not the profiles
     are held.""",
     ["inputs", "histories"], "all shapes, all non-negative V, positive weights, positive W,H, any number of updates",
     "a test samples a handful of matrices; an update that lowers the loss on those can raise it on others",
     ["esat/model/ls_nmf.py", "esat/metrics.py"],
     [("multiplicative update", "esat/model/ls_nmf.py:LSNMF.update"), ("Q(true)", "esat/metrics.py:q_loss")],
     ["loss before and after an update"])
prop("C03", "WS-NMF step: contributions solve the weighted normal equations",
     """One weighted semi-NMF update returns contributions whose every row solves the weighted least-squares normal
     equations for the profiles given, and profiles obtained from the semi-NMF multiplicative rule with those new
     contributions.  Every profile entry stays a non-negative number, the shapes are preserved, and no input matrix is modified; when the
     caller asks to hold the profiles they are returned unchanged.""",
     ["inputs"], "all m,n,k >= 1, real V and W, positive weights and profiles",
     "the stable tests run one update on one fixed matrix and compare only shape and a loss threshold",
     ["esat/model/ws_nmf.py"], [("semi-NMF update", "esat/model/ws_nmf.py:WSNMF.update")],
     ["return value of the update step"])
prop("C04", "Loss metrics equal their definitions and never modify their inputs",
     """Q(true) is the sum of squared uncertainty-scaled residuals, and with uncertainty scaling switched off the sum of
     squared residuals; Q(robust) down-weights exactly the cells whose absolute scaled residual exceeds alpha, each
     contributing alpha times the absolute scaled residual, so it never exceeds Q(true) for alpha >= 0.  The per-factor loss is the sum over all cells of the squared scaled residual times the factor's
     share of the reconstruction of that cell (rounded to four decimals), and none of the losses modifies the matrices it is given.""",
     ["inputs"], "all shapes, all real V,W,H, positive U, alpha > 0",
     "the tests evaluate the losses on one matrix, where cells straddling the robust threshold are not controlled",
     ["esat/metrics.py"], [("Q(true)", "esat/metrics.py:q_loss"), ("Q(robust)", "esat/metrics.py:qr_loss"),
                           ("factor Q", "esat/metrics.py:q_factor")], ["loss return values"])
prop("C05", "Model construction: weights, uncertainty floor, method dispatch, no aliasing",
     """A model built from a data and an uncertainty matrix works on private copies, so later training never changes the
     caller's arrays, and its weights are the inverse squares of its uncertainties.  Non-positive uncertainties are
     replaced by a tiny positive value, data containing a negative value selects the semi-NMF algorithm, and data, uncertainty
     or factor matrices with missing values or mismatched shapes make the model invalid, so that it is not trained.""",
     ["inputs", "configurations"], "all data/uncertainty matrices, factor counts, both methods",
     "the tests construct models from two well formed synthetic data sets",
     ["esat/model/sa.py"], [("constructor", "esat/model/sa.py:SA.__init__"),
                            ("validation", "esat/model/sa.py:SA.__validate")], ["model attributes after construction"])
prop("C06", "Factor initialisation: shapes, strict positivity, caller's factors kept",
     """After initialisation the contribution matrix is samples-by-factors and the profile matrix factors-by-features,
     every profile entry is strictly positive (with the default start of the least-squares method every contribution
     too), factor matrices of the right shape supplied by the caller are used value for value wherever they are positive
     and are not modified, and the same seed gives the same start.""",
     ["inputs", "configurations"], "all non-negative data matrices, factor counts, init methods, seeds, supplied W/H or none",
     "the tests initialise a few models of one size", ["esat/model/sa.py"],
     [("initialisation", "esat/model/sa.py:SA.initialize")], ["W and H after initialisation"])
prop("C07", "A trained model's reported results agree with each other",
     """When training returns, the reconstruction is the product of the model's contributions and profiles, the reported
     Q(true) and Q(robust) are the losses of exactly those matrices against the model's data and uncertainty, and the
     loss history ends with the reported Q.  Every factor update is one step of the selected algorithm from the current
     factors with the model's own data and weights, and an invalid model is never trained.""",
     ["inputs", "histories", "configurations"], "all models, iteration limits, convergence settings, robust or not",
     "the tests train a few models once and look at one number", ["esat/model/sa.py"],
     [("training loop", "esat/model/sa.py:SA.train")], ["model attributes after training"])
prop("C08", "Training stops exactly by its convergence rule and honours held profiles",
     """Training performs updates until the first iteration at which the change in loss across the most recent converge_n
     recorded losses is below the convergence threshold, or the iteration limit is reached, and is marked
     converged only in the first case.  With profiles held, they come out exactly as they went in; with a delay d, profiles are held
     only in the iterations numbered 0 to d and are updated from then on.""",
     ["inputs", "histories", "configurations"], "all loss sequences, thresholds, window lengths, limits, hold/delay",
     "the tests use one threshold on one data set and never hold or delay the profiles", ["esat/model/sa.py"],
     [("training loop", "esat/model/sa.py:SA.train")], ["converged flag, number of recorded losses, profiles"])
prop("C09", "Batch training keeps every model in order and selects the lowest loss",
     """A batch returns exactly the requested number of models in seed order, each started from its own seed derived from
     the batch seed and trained with the batch's settings, and points to the model with the lowest robust (or true) loss
     among the trained ones.  Parallel and sequential execution hand the same settings to every model and give the same
     selection.""",
     ["inputs", "schedules", "configurations"], "all batch sizes, seeds, losses, completion orders",
     "batch tests are not among the stable tests, and completion order is not controllable from them",
     ["esat/model/batch_sa.py"], [("batch loop", "esat/model/batch_sa.py:BatchSA.train"),
                                  ("worker", "esat/model/batch_sa.py:_train_task")], ["results list, best model index"])
prop("C10", "Bootstrap resampling returns whole input rows, data and uncertainty together",
     """A bootstrap resample has the same number of rows as the input; every row of it is one of the input rows with its
     own uncertainty row (and own contribution row), taken as contiguous blocks of the configured size in block mode,
     and the original matrices are not modified.""",
     ["inputs", "configurations"], "all row counts, block sizes, seeds, overlap or not, block mode or not",
     "tests draw a few resamples of one data set", ["esat/error/bootstrap.py"],
     [("block resample", "esat/error/bootstrap.py:Bootstrap._block_resample"),
      ("row resample", "esat/error/bootstrap.py:Bootstrap._resample")], ["resampled matrices and indices"])
prop("C11", "Bootstrap factors map to their best correlated base factor",
     """Each bootstrap factor is mapped to the base factor with which its contributions correlate most when that
     correlation reaches the threshold and is otherwise unmapped, and the mapping table counts each of these decisions
     exactly once, so every row adds up to the number of successful runs.""",
     ["inputs", "histories"], "all factor matrices, thresholds, numbers of runs",
     "tests use one run with one data set", ["esat/error/bootstrap.py"],
     [("mapping", "esat/error/bootstrap.py:Bootstrap.map_contributions"),
      ("table", "esat/error/bootstrap.py:Bootstrap._build_table")], ["factor map, mapping table"])
prop("C12", "DISP search moves one profile element at a time and keeps the base model",
     """The displacement search evaluates, for every factor and feature, models that differ from the base solution in
     exactly that one profile element, accepts a displacement only when its loss change matches the requested limit
     within the tolerance or the search is exhausted, and never modifies the base model.""",
     ["inputs"], "all models, factors, features, dQ limits",
     "tests run one small model end to end", ["esat/error/displacement.py"],
     [("upward search", "esat/error/displacement.py:Displacement._increase_disp"),
      ("downward search", "esat/error/displacement.py:Displacement._decrease_disp")], ["recorded displacements"])
prop("C13", "DISP results: each cell reported in place, swaps counted by dQ level",
     """The compiled displacement results hold, for each factor, feature and dQ level, the values found by the searches
     for that cell with the lower bound never above the upper bound, the swap table counts each detected factor swap
     once at its own dQ level, and saved or printed tables carry that same labelling.""",
     ["inputs"], "all sets of recorded displacements", "tests look at one run",
     ["esat/error/displacement.py"], [("compile", "esat/error/displacement.py:Displacement._compile_results"),
                                      ("summary", "esat/error/displacement.py:Displacement.summary")],
     ["compiled results, swap table"])
prop("C14", "BS-DISP aggregates every bootstrap run exactly once",
     """The combined bootstrap-displacement result uses every completed run exactly once: for every factor and feature
     the reported interval is the envelope of the intervals of all runs, and swap counts are the sums over all runs.""",
     ["inputs"], "all numbers of runs and interval tables", "tests run one small case",
     ["esat/error/bs_disp.py"], [("compile", "esat/error/bs_disp.py:BSDISP.__compile_results")],
     ["compiled results"])
prop("C15", "Constraint and expression bookkeeping rejects invalid targets and keeps the rest",
     """Adding a constraint with a target, index or type that does not exist in the model, or on an element that already
     has one, is rejected and leaves the set of constraints unchanged; a valid one is accepted and recorded with exactly
     the values given under its own label; removing one leaves all the others as they were and an unknown label changes
     nothing. Expressions are kept in the order given, and are read as exactly the terms written.""",
     ["inputs", "histories"], "all sequences of additions and removals",
     "tests add a handful of valid constraints", ["esat/rotational/constrained.py"],
     [("add", "esat/rotational/constrained.py:ConstrainedModel.add_constraint"),
      ("remove", "esat/rotational/constrained.py:ConstrainedModel.remove_constraint"),
      ("parse", "esat/rotational/constrained.py:ConstrainedModel._map_expressions")],
     ["constraint list"])
prop("C16", "Each constraint pulls exactly its own element towards its own target",
     """When constraints are applied, an element pinned, set to zero or set to a value gets that target and no other
     element of the contributions or profiles is touched; an element with limits is pulled to the nearest limit when
     outside them and not pulled at all when inside.""",
     ["inputs", "configurations"], "all constraint sets and factor matrices",
     "tests apply one constraint of each kind at one index", ["esat/rotational/constrained.py"],
     [("targets", "esat/rotational/constrained.py:ConstrainedModel._apply_constraints")],
     ["pull targets"])
prop("C17", "Constrained training reports a self-consistent solution",
     """The constrained model reported after training is the one with the reported losses: its reconstruction is the
     product of its factors, its Q values are the losses of those factors on the base data, the auxiliary loss is the
     weighted squared distance of the factors from their targets, and the base model is unchanged.""",
     ["inputs", "histories"], "all constraint sets, iteration limits", "tests train one example",
     ["esat/rotational/constrained.py"], [("training", "esat/rotational/constrained.py:ConstrainedModel.train"),
                                          ("Q aux", "esat/rotational/constrained.py:ConstrainedModel._Qaux_loss")],
     ["constrained model attributes"])
prop("C18", "Pull searches stay within the allowed loss change and never touch the factors",
     """A pull-up, pull-down or pull-to search returns a value on the requested side of the current value whose loss
     change stays within the allowed limit (up to the search's tolerance of 100) and uses the allowed change up to that
     tolerance where the limit is what stops it, evaluates only models differing in the pulled element, and leaves the
     factor matrices it was given unmodified.""",
     ["inputs"], "all factor matrices, targets, dQ limits", "tests use one element",
     ["esat/rotational/constrained.py"], [("pull down", "esat/rotational/constrained.py:ConstrainedModel._pull_down_value"),
                                          ("pull up", "esat/rotational/constrained.py:ConstrainedModel._pull_up_value"),
                                          ("pull to", "esat/rotational/constrained.py:ConstrainedModel._pull_to_value")],
     ["returned values"])
prop("C19", "Category handling: bad features drop out, weak ones get tripled uncertainty",
     """The matrices handed to a model contain exactly the non-bad features in their original order with their data
     unchanged (rows with a missing value in a kept feature left out, zeros replaced by a tiny positive number); the
     uncertainty of weak features is three times the input uncertainty and that of strong ones is unchanged, however
     often and in whatever order categories are changed. Unknown features and categories are refused, and the loaded
     input is never modified.""",
     ["inputs", "histories"], "all data sets and sequences of category changes",
     "tests load one data set and change one category", ["esat/data/datahandler.py"],
     [("model input", "esat/data/datahandler.py:DataHandler.get_data"),
      ("category", "esat/data/datahandler.py:DataHandler.set_category")], ["returned V and U"])
prop("C20", "Input loading: complete rows only, metrics computed from the rows kept",
     """After loading, the data and uncertainty tables contain the same rows and columns; rows with no value at all in the
     data or the uncertainty are dropped from both, and each feature's signal-to-noise ratio, minimum, maximum and
     quantiles are those of the table kept.""",
     ["inputs", "configurations"], "all data tables with and without missing values",
     "tests load complete tables", ["esat/data/datahandler.py"],
     [("dataset", "esat/data/datahandler.py:DataHandler._set_dataset")], ["tables and metrics"])
prop("C21", "Splitting by location and merging keep every row with its uncertainty",
     """Splitting a multi-location data set yields one data set per location whose rows are exactly that location's rows
     with their uncertainties, and merging data sets of the same features gives every source row once, labelled by its
     source, as a data set that can be handed to a model.""",
     ["inputs"], "all location columns and sets of data sets", "not exercised by the stable tests",
     ["esat/data/datahandler.py"], [("split", "esat/data/datahandler.py:DataHandler.split_locations"),
                                    ("merge", "esat/data/datahandler.py:DataHandler.merge")], ["resulting data sets"])
prop("C23", "Factor estimator trains on the unmasked cells and tests on the masked ones",
     """A factor estimation sample hides the masked cells from training (they are replaced as missing values are), computes
     its test error only on the masked cells and its training error only on the unmasked ones; the table averages each
     factor count over exactly its own samples, and the estimate is the count with the lowest discounted test error.""",
     ["inputs"], "all data, masks, seeds and factor ranges", "not exercised by the stable tests",
     ["esat/estimator.py"], [("sample", "esat/estimator.py:FactorEstimator._random_sample"),
                             ("results", "esat/estimator.py:FactorEstimator._results")], ["sample losses, results table"])
prop("C24", "Simulator output is consistent: data is product plus bounded perturbation",
     """The synthetic data are the product of the synthetic contributions and profiles plus the configured noise,
     contamination and outliers, floored at a tiny positive number, and the synthetic uncertainty is positive and
     proportional to the data by the configured per-feature factor; a supplied profile matrix of the right shape is used
     as given and not modified, contribution curves cover all samples within their limits, and the same seed gives the
     same data.""",
     ["inputs", "configurations"], "all simulator configurations", "not exercised by the stable tests",
     ["eval/simulator.py"], [("generate", "eval/simulator.py:Simulator._generate_data"),
                             ("contribution", "eval/simulator.py:Simulator.update_contribution")], ["synthetic data"])
prop("C25", "Factor comparison picks a one-to-one mapping with the highest correlation",
     """Comparing two solutions assigns every factor of the smaller one to a different factor of the other, and the reported
     mapping is the one with the highest average correlation among all such assignments, reported together with its own
     correlation; the same holds for the factor map of perturbed models, and the metric tables hold each model's own.""",
     ["inputs"], "all profile/contribution matrices", "not exercised by the stable tests",
     ["eval/factor_comparison.py"], [("compare", "eval/factor_comparison.py:FactorCompare.compare")],
     ["best mapping and correlation"])
prop("C26", "The factor catalog counts every observed factor exactly once",
     """Every observed factor is merged into exactly one existing catalog factor, the best matching one when it meets the
     threshold, or else starts a new one; members are kept exactly as observed with their model, a factor's count is the
     number of its observations and its occurrence that count per model, and adding a batch adds every factor of every
     model that has a result and is not excluded as an outlier, and a matrix is looked up as the catalog factor
     whose members correlate best with it on average.""",
     ["inputs", "histories"], "all sequences of observed factors", "not exercised by the stable tests",
     ["eval/factor_catalog.py"], [("add", "eval/factor_catalog.py:Factor.add"),
                                  ("catalog", "eval/factor_catalog.py:FactorCatalog.add_factor")], ["catalog contents"])
prop("C27", "Perturbation runs perturb the uncertainty only, reproducibly by seed",
     """Each perturbed model is trained on the base model's data with uncertainties multiplied by positive random factors of
     the configured spread (cells outside the configured share keep theirs), is reproducible from its seed, and leaves
     the base model's data and uncertainty unchanged.""",
     ["inputs"], "all data, bounds, seeds", "one test with one seed", ["eval/perturbation.py"],
     [("perturb", "eval/perturbation.py:Perturbation.perturb")], ["perturbed models"])
prop("C29", "Saving and loading a model returns the same model",
     """A model written to disk and read back has the same data, factors, losses and settings, and exported tables hold
     the model's own factors, reconstruction and residuals under their own names.""",
     ["inputs", "configurations"], "all models, headers, output formats", "one round trip in the tests",
     ["esat/model/sa.py", "esat/model/batch_sa.py"],
     [("save", "esat/model/sa.py:SA.save"), ("load", "esat/model/sa.py:SA.load")], ["files written"])
prop("C30", "Model statistics are those of the model's residuals",
     """The reported per-feature statistics (r2, RMSE, normality, residual counts) are computed from that feature's own
     observed and modelled values and match their definitions.""",
     ["inputs"], "all models", "not exercised by the stable tests", ["esat/data/analysis.py"],
     [("statistics", "esat/data/analysis.py:ModelAnalysis.calculate_statistics"),
      ("metrics", "esat/data/analysis.py:ModelAnalysis.features_metrics")], ["statistics tables"])
prop("C31", "Recombined and compared factor utilities match their definitions",
     """The correlation of two factors is the squared Pearson correlation, the comparison of two factor matrices reports
     a swap exactly when some factor correlates better with another factor's row than with its own, and the memory
     estimate (bytes per model, models at once), the minimum time step, the lag matrix, the flat-top kernel and the
     automatic block length equal their documented formulas.""",
     ["inputs"], "all inputs", "not exercised by the stable tests",
     ["esat/utils.py", "esat/model/recombinator.py"],
     [("correlation", "esat/utils.py:calculate_factor_correlation"),
      ("comparison", "esat/utils.py:compare_all_factors"), ("memory", "esat/utils.py:memory_estimate"),
      ("block length", "esat/model/recombinator.py:optimal_block_length")],
     ["return values"])
prop("C32", "The compiled back end computes the same models as the Python code",
     """For the same inputs the optional compiled back end and the pure Python implementation produce the same factors,
     loss history and convergence state up to rounding.""",
     ["inputs", "configurations"], "all inputs", "the extension is not built here", ["rust/lib.rs"],
     [("Rust kernels", "rust/lib.rs")], ["training results"])
prop("C33", "Command line runs give the same results as the library calls",
     """Every command line action performs exactly the corresponding library calls with the parameters of the project
     configuration and writes their results into the project directory.""",
     ["inputs", "configurations"], "all project configurations", "CLI tests are not among the stable tests",
     ["esat/cli/esat_cli.py"], [("commands", "esat/cli/esat_cli.py")], ["project files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
