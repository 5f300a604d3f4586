#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["pystatsm/" + f for f in files],
         "mechanism": [{"name": n, "where": "pystatsm/" + w} for n, w in mech],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

U = "utilities/"
prop("C01", "Sparse kernels equal their dense definitions, also when buffers are reused",
     "Every native sparse helper (sparse/dense Kronecker products in all operand orders and with an identity factor, sparse matrix products, sums and dense right-hand-side products written into a preallocated result, and triplet-to-column conversion) returns exactly the matrix its mathematical definition gives, for every shape and every valid sparsity pattern, including empty rows and columns. "
     "Writing into a reused output buffer gives the same answer as a fresh computation, however many times and with whatever values the buffer was filled before. Operands are never modified.",
     ["inputs", "histories"],
     "All operand shapes (square or not, zero-size sides), sparsity patterns and values, and all sequences of in-place calls that reuse one output.",
     "The suite multiplies a few random square matrices once each; it never reuses a buffer after values changed, and non-square, empty and fully dense shapes are not sampled.",
     [U+"python_wrappers.py", U+"cython_wrappers.pyx", U+"src/cs_kron_ss.c", U+"src/cs_kron_id_sp.c", U+"src/coo_to_csc.c"],
     [("python wrappers", U+"python_wrappers.py"), ("C kernels", U+"src"), ("Cython bindings", U+"cython_wrappers.pyx")])

prop("C02", "Native code stays inside its buffers and free of undefined behaviour",
     "No call to the compiled extensions with arguments their Python interface accepts reads or writes outside the arrays it was given, uses uninitialised or freed memory, or executes undefined arithmetic; whatever is written in a result is confined to that result. "
     "This holds for every shape, sparsity pattern and value and for every sequence of calls.",
     ["inputs", "histories"],
     "All shapes/patterns accepted by the extension entry points, including zero-size sides, and all call sequences including in-place reuse.",
     "An out-of-bounds access in C usually returns the right numbers, so value tests pass; the suite is not built with any sanitizer.",
     [U+"src/cs_kron_ss.c", U+"src/cs_kron_id_sp.c", U+"cython_wrappers.pyx", U+"ordered_indices.pyx"],
     [("pointer arithmetic over CSC arrays", U+"src"), ("typed memoryviews with bounds checks off", U+"ordered_indices.pyx")])

prop("C03", "Half-vectorisation, commutation and index maps obey their identities",
     "The half-vectorisation and its inverse, and the duplication, elimination, commutation, symmetrisation, lower-triangular and diagonal selection matrices (dense or sparse), satisfy their defining identities on every matrix of every size. "
     "Index conversions between multi-indices, flat positions and triangular/simplex positions are mutually inverse bijections that enumerate exactly the stated index set in the stated order.",
     ["inputs"],
     "Every dimension up to the tested bound (exhaustively in size) and every matrix of that dimension.",
     "Tests check a handful of sizes of a few of these operators; derivative code throughout the library depends on every size.",
     [U+"special_mats.py", U+"linalg_operations.py", U+"indexing_utils.py", U+"ordered_indices.pyx"],
     [("structured matrices", U+"special_mats.py"), ("index maps", U+"indexing_utils.py"), ("ordered index generation", U+"ordered_indices.pyx")])

prop("C04", "Parameter transforms are inverse pairs with exact first and second derivatives",
     "For every covariance, correlation, vector and composite parameter transform, mapping forward and back returns the starting parameters, every unconstrained vector maps to a valid member of the target set (symmetric positive definite, unit diagonal for correlations, increasing for ordered vectors), and the reported Jacobians and Hessians in both directions are the derivatives of the maps. "
     "The forward and backward Jacobians are mutual inverses.",
     ["inputs"],
     "All dimensions and all interior points, including strongly correlated, badly scaled and near-boundary ones.",
     "Tests evaluate one or two random well-conditioned matrices of one size; boundaries, other sizes and some second derivatives are never evaluated.",
     [U+"cov_transform.py", U+"param_transforms.py", U+"unconstrained_chol.py", U+"dchol.py", "pyglm2/clm.py"],
     [("covariance transforms", U+"cov_transform.py"), ("parameter transforms", U+"param_transforms.py"), ("ordered thresholds", "pyglm2/clm.py")])

prop("C05", "Finite-difference derivatives are accurate and leave the point untouched",
     "The numerical derivative routines return, for smooth scalar- and vector-valued functions, the gradient, Jacobian and Hessian to within the discretisation error of the scheme used, with the documented orientation of axes and symmetric Hessians, with extra function arguments passed through. "
     "They evaluate only near the given point and do not modify it.",
     ["inputs"],
     "All smooth functions, dimensions and points, including badly scaled points and zero coordinates.",
     "They are used as oracles inside the tests rather than being tested; no test covers scaling, zero coordinates, orientation for non-square Jacobians or argument passing.",
     [U+"numerical_derivs.py"], [("difference schemes", U+"numerical_derivs.py")])

prop("C06", "Dense linear-algebra helpers agree with their definitions",
     "Triangular-factor updates and inverses, block and Kronecker helpers, weighted least squares, nearest-positive-definite and covariance/correlation helpers return what their definition gives on every admissible input: factors reproduce the matrix, solves satisfy the equations, and projections land in the target set and leave members of it unchanged.",
     ["inputs"],
     "All admissible shapes and values, including rank-deficient, badly scaled, one-row and one-column inputs.",
     "Tests sample single random well-conditioned inputs of some helpers; many are never called.",
     [U+"linalg_operations.py", U+"cov_utils.py", U+"data_utils.py"],
     [("linear algebra", U+"linalg_operations.py"), ("covariance helpers", U+"cov_utils.py")])

prop("C07", "Mixed-model log-likelihood and gradient equal the dense marginal model",
     "For every data set, grouping structure and covariance parameter, the linear mixed model's objective equals minus twice the (restricted) log-density of the outcome under the marginal normal model with covariance Z G Z' + s I up to the documented constant, and the reported gradient and Hessian are its derivatives. "
     "The value depends only on the parameters and data: earlier evaluations at other parameters, evaluation order, row order and level relabelling do not change it.",
     ["inputs", "histories"],
     "All designs (nested, crossed, unbalanced, multiple random effects per group, degenerate covariates), all covariance parameters and all evaluation histories.",
     "Tests compare values on one simulated balanced design at one or two parameter values, from a fresh object.",
     ["pylmm/re_mod.py", "pylmm/lmm.py", "pylmm/ranef_terms.py"],
     [("blocked mixed model equations", "pylmm/re_mod.py"), ("sparse likelihood and derivatives", "pylmm/lmm.py")])

prop("C08", "Mixed-model fits return the GLS solution, BLUPs and matching inference",
     "After a linear mixed model is fitted, the reported fixed effects are the generalised least squares solution, the random effects their best linear unbiased predictions and the covariances, standard errors, likelihood and information criteria those implied by the reported covariance parameters, which are a stationary point no worse than the start. "
     "Fitted quantities are equivariant to row order, level labels, shifting or scaling the outcome; predictions match the design applied to the reported effects.",
     ["inputs"],
     "All data sets with a well-identified interior solution, all designs and label types.",
     "Tests fit one or two fixed data sets and compare stored numbers.",
     ["pylmm/re_mod.py", "pylmm/lmm.py"], [("effects and summaries", "pylmm/re_mod.py"), ("effects and summaries", "pylmm/lmm.py")])

prop("C09", "Links and exponential families are internally consistent at every order",
     "For every link, the inverse link inverts the link and the reported derivatives of each order are the derivatives of the function they belong to; for every family, the variance function and its derivatives, log-likelihood, deviance and residuals are the ones of the named distribution, and the weights used for scoring are the first and second derivatives of the log-likelihood with respect to the linear predictor. "
     "This holds for every supported link/family pair, over the whole parameter space, in both generations of the GLM code.",
     ["inputs", "configurations"],
     "All link x family combinations, means over the full range, observations on the support including its boundary, prior weights and dispersion values.",
     "Tests touch a few canonical pairs at random interior points and never the higher-order derivatives, weights or boundary observations of most pairs.",
     ["pyglm/families.py", "pyglm/links.py", "pyglm2/families.py", "pyglm2/links.py"],
     [("families", "pyglm2/families.py"), ("links", "pyglm2/links.py"), ("first generation", "pyglm/families.py")])

prop("C10", "GLM fits solve the likelihood equations and report matching inference",
     "For every data set with a finite maximum, family, link, scale treatment and prior weights, a fitted generalised linear model has zero score, the reported gradient, Hessian and per-observation scores are the derivatives of the reported objective, and standard errors, covariance, deviance, Pearson statistics, information criteria, likelihood-ratio and predictions are those implied by the estimate. "
     "Integer prior weights give the coefficients of the row-replicated data, and the fit does not depend on row order or on an invertible recoding of the columns.",
     ["inputs", "configurations"],
     "All family/link/scale-estimator configurations, designs, weights and responses with a finite interior maximum.",
     "Tests fit one simulated data set per family; weights, non-canonical links and inference quantities are not cross-checked.",
     ["pyglm/glm.py", "pyglm2/glm.py", "pyglm2/regression_model.py", "pyglm2/likelihood_model.py"],
     [("GLM", "pyglm2/glm.py"), ("first-generation GLM", "pyglm/glm.py"), ("inference", "pyglm2/likelihood_model.py")])

prop("C11", "Ordinal, count, zero-inflated and beta regressions match their distributions",
     "For the cumulative-link, negative-binomial, zero-inflated/hurdle-type and beta regression models, the objective is the negative log-probability of the data under the named distribution, the gradients and Hessians are its derivatives, category probabilities are non-negative and sum to one, and a converged fit is stationary with covariance equal to the inverse Hessian.",
     ["inputs", "configurations"],
     "All parameter vectors in the domain, designs, category counts (empty cells included), prior weights and link choices.",
     "Tests evaluate derivatives at one random point for a subset of these models.",
     ["pyglm2/clm.py", "pyglm2/zinf.py", "pyglm/clm.py", "pyglm/nb2.py", "pyglm/zimodels.py", "pyglm/betareg.py"],
     [("ordinal", "pyglm2/clm.py"), ("zero inflated", "pyglm2/zinf.py"), ("beta", "pyglm/betareg.py")])

prop("C12", "Least squares, robust covariances and resampling follow their definitions",
     "Ordinary and multivariate least-squares fits satisfy the normal equations and report the classical and heteroscedasticity-consistent covariances, leverages, influence measures and test statistics of their definitions. "
     "Jackknife coefficients equal actually refitting without each row; bootstrap and permutation draws are fits to uniformly drawn resamples of the data, permutation p-values are the tail fractions of those draws, and results are reproducible under a fixed generator.",
     ["inputs", "histories"],
     "All full-rank designs (with an intercept where sums of squares are reported), single and multiple outcomes, weights for multivariate fits, and resampling seeds.",
     "Tests cover a single regression; resampling output is random and is not checked against refits.",
     ["pyglm/ols.py", "pyglm2/ols.py", "pyglm2/mvols.py", "pyglm2/regression_model.py"],
     [("OLS", "pyglm/ols.py"), ("linear model", "pyglm2/ols.py"), ("multivariate OLS", "pyglm2/mvols.py")])

prop("C13", "Likelihood inference helpers compute the statistics they are named for",
     "Information criteria, pseudo R-squared values, parameter tables, sandwich covariances, leverages, likelihood-ratio, Wald and score tests and profile-likelihood intervals equal their textbook formulas for every input; the three tests agree asymptotically exact cases (quadratic log-likelihoods), and a profile interval's endpoints lie on the stated likelihood contour.",
     ["inputs"],
     "All log-likelihood values, dimensions, constraints, leverages and quadratic or regular likelihoods.",
     "No test evaluates them against their formulas.",
     ["pyglm2/likelihood_model.py", "pyglm2/regression_model.py"],
     [("inference", "pyglm2/likelihood_model.py"), ("sandwich", "pyglm2/regression_model.py")])

prop("C14", "Elastic-net solutions satisfy the optimality conditions of their objective",
     "Every coefficient vector an elastic-net or lasso solver reports as converged (Gaussian or generalised linear, at a single penalty, along a path or by cross-validation) satisfies the subgradient optimality conditions of the stated penalised objective for that penalty to solver tolerance, reports objective pieces consistent with it, and has no larger objective than nearby points. "
     "The largest path penalty gives an all-zero penalised solution, and cross-validation folds partition the observations.",
     ["inputs", "configurations"],
     "All designs (correlated, wide, constant columns excluded), responses, penalties, mixing values and observation weights.",
     "Tests check one data set per solver; a wrong stationarity condition still gives plausible coefficients.",
     ["pyglmnet/glmen2.py", "pyglmnet/gaussian_eln.py", "pyglmnet/binomial_eln.py", "pyglmnet/binom_eln2.py", "pyglmnet/eln_utils.py", "pyglmnet/lasso.py", "pyglmnet/lars.py"],
     [("coordinate descent", "pyglmnet/glmen2.py"), ("proximal gradient", "pyglmnet/lasso.py"), ("LARS", "pyglmnet/lars.py")])

prop("C15", "Spline bases and roughness penalties represent the stated function space",
     "Each spline basis (cubic regression, cyclic cubic and B-spline) spans the stated piecewise-polynomial space with the stated continuity (and periodicity) at its knots, reproduces constants and lines where it should, is unchanged when re-evaluated one point at a time, and its penalty is symmetric positive semi-definite with the stated null space and equals the integrated squared derivative. "
     "Identifiability constraints are absorbed without changing the constrained span.",
     ["inputs"],
     "All knot sequences, degrees of freedom, evaluation points (including knots and boundaries) and data.",
     "No test evaluates a basis or penalty directly.",
     [U+"splines.py", "pygam/smooth_setup.py"], [("bases and penalties", U+"splines.py"), ("smooth construction", "pygam/smooth_setup.py")])

prop("C16", "Additive-model fits solve the penalised problem and REML derivatives are exact",
     "For every data set, family and smoothing parameter, an additive model's coefficients are a stationary point of the penalised likelihood, and the gradient and Hessian of the smoothing objective (and of the coefficients with respect to smoothing parameters) are its derivatives. "
     "The reported optimum has zero gradient or lies at a flat boundary, and effective degrees of freedom lie between the penalty null space and the basis size.",
     ["inputs", "configurations"],
     "All families and links offered, smooth types, smoothing parameters over many orders of magnitude and data sets.",
     "Tests check the REML derivatives at one point for one data set per model.",
     ["pygam/gam.py", "pygam/gauls.py", "pygam/gaussian_additive_model.py"],
     [("GAM", "pygam/gam.py"), ("location-scale", "pygam/gauls.py"), ("Gaussian additive", "pygam/gaussian_additive_model.py")])

prop("C17", "Factor-analysis likelihoods, derivatives and estimates are consistent",
     "For every sample covariance and number of factors, the factor-analysis discrepancy equals the normal-theory discrepancy of the implied covariance, its gradients and Hessians in every parameterisation are its derivatives, and the fitted loadings, factor correlations and uniquenesses reproduce the optimal implied covariance. "
     "Implied covariance, communalities and discrepancy do not change under rotation, reordering or reflection of factors; factor scores and fit indices follow their definitions.",
     ["inputs"],
     "All covariance matrices, dimensions with positive degrees of freedom and parameter values.",
     "Tests check derivatives at one seeded model per class.",
     ["pyfa/efa.py", "pyfa/factor_analysis.py", "pyfa2/likelihood.py", "pyfa/fit_measures.py"],
     [("likelihood (second generation)", "pyfa2/likelihood.py"), ("EFA", "pyfa/efa.py"), ("augmented model", "pyfa/factor_analysis.py")])

prop("C18", "Rotations stay in their group, preserve the model and reach stationary points",
     "A rotation of any loading matrix under any criterion returns a transformation in its constraint set (orthogonal, or unit-variance oblique), with loadings and factor correlations that reproduce the unrotated common covariance, a criterion value no worse than the start, and a vanishing projected gradient. "
     "Criterion values and derivatives are exact, parameterisations of rotations are inverse pairs, identification constraints vanish exactly at the rotated solution and have exact derivatives, and alignment to a target is a signed permutation that is optimal.",
     ["inputs", "configurations"],
     "All loading matrices, criteria (Crawford-Ferguson/oblimin family, target), orthogonal and oblique rotation, solvers and starting points.",
     "Tests rotate one or two simulated matrices; criteria constants and constraint derivatives are sampled for few settings.",
     ["pyfa/rotation.py", "pyfa2/rotation.py", "pyfa2/criterion.py", "pyfa2/solvers.py", "pyfa2/cayley.py", "pyfa2/identification.py", "pyfa2/alignment.py", "pyfa/align_loadings.py"],
     [("criteria", "pyfa2/criterion.py"), ("solvers", "pyfa2/solvers.py"), ("identification", "pyfa2/identification.py"), ("first generation", "pyfa/rotation.py")])

prop("C19", "Factor-analysis standard errors equal the constrained-information ones",
     "Standard errors and parameter covariances of rotated or unrotated factor solutions are those of the constrained maximum-likelihood information (or sandwich) matrix: they vanish along the constraints, agree with delta-method or numerical re-estimation derivatives, scale inversely with sample size, and do not depend on factor order or sign.",
     ["inputs", "configurations"],
     "All covariance matrices, sample sizes, rotations and identification choices.",
     "Tests look at derivative blocks, not at the resulting covariance of the estimates.",
     ["pyfa2/inference.py", "pyfa2/identification.py", "pyfa/efa.py", "pyfa/factor_analysis.py"],
     [("augmented information", "pyfa2/inference.py"), ("constraint derivatives", "pyfa2/identification.py")])

prop("C20", "SEM implied moments, objective and derivatives agree for every model",
     "For every structural equation model the implied means and covariances are those of the model equations, the objective is the normal-theory (full-information for groups and means) discrepancy, and its gradient, per-observation scores and Hessian are its derivatives with respect to the free parameters, for any pattern of fixed, free, equal and group-specific parameters.",
     ["inputs", "configurations"],
     "All model formulas (measurement, path, full; with or without means; one or several groups), parameter values and sample moments.",
     "Tests check a few textbook models at a few points.",
     ["pysem/sem.py", "pysem/sem2.py", "pysem/derivatives.py", "pysem2/sem.py", "pysem2/derivatives.py"],
     [("moment derivatives", "pysem2/derivatives.py"), ("multi-group SEM", "pysem2/sem.py"), ("matrix SEM", "pysem/sem.py")])

prop("C21", "SEM formulas translate to the model they describe",
     "The parameter table and model matrices built from a structural equation formula contain exactly the loadings, regressions, (co)variances and means it states plus the documented defaults, with fixed values, labels and equality constraints honoured, whatever the order of statements, spacing, or column order of the data. "
     "Parameter vectors map to matrices and back without loss, and unrelated parameters are never tied.",
     ["inputs", "programs"],
     "All formulas in the documented grammar, orders of statements and variable names, and all free parameter vectors.",
     "Tests parse a handful of fixed formulas.",
     ["pysem2/formula.py", "pysem2/model_base.py", "pysem2/model_builder.py", "pysem2/param_table.py", "pysem2/variable_ordering.py", "pysem2/indexers.py", "pysem/param_table.py", "pysem/formula_parser.py"],
     [("parser", "pysem2/formula.py"), ("matrix assembly", "pysem2/model_builder.py"), ("index maps", "pysem2/indexers.py")])

prop("C22", "SEM fits are stationary, order-invariant and report matching fit statistics",
     "A converged structural equation fit has zero gradient over its free parameters, an objective no larger than at its starting values, implied moments and standard errors that follow from the estimate, and fit statistics equal to their definitions. "
     "The fitted discrepancy and implied moments do not depend on statement order, variable order or group order, and fitting data generated exactly from a model returns zero discrepancy.",
     ["inputs"],
     "All identified models and data sets on which the optimiser converges.",
     "Tests compare stored estimates for a few textbook data sets.",
     ["pysem/sem.py", "pysem/sem2.py", "pysem2/sem.py"],
     [("fit", "pysem2/sem.py"), ("fit", "pysem/sem2.py"), ("fit", "pysem/sem.py")])

prop("C23", "Latent correlations rest on exact bivariate-normal probabilities",
     "Bivariate-normal densities, distribution functions and their derivatives are accurate over the whole plane and correlation range; implied contingency-table probabilities are non-negative and sum to one. "
     "Polychoric and polyserial objectives are the negative log-likelihoods of the table or data, their gradients and Hessians are exact in every parameterisation, and a fitted correlation is a stationary point in (-1,1), symmetric in its variables and changes sign when one variable's order is reversed.",
     ["inputs"],
     "All thresholds (infinite included), correlations up to the boundary, table shapes and sparse cells.",
     "Tests check a few moderate correlations and a single table.",
     ["pylvcorr/statfuncs.py", "pylvcorr/lvcorr.py", "pylvcorr/polychoric.py", "pylvcorr/polychoric2.py"],
     [("bivariate normal", "pylvcorr/statfuncs.py"), ("polychoric", "pylvcorr/polychoric2.py"), ("latent correlations", "pylvcorr/lvcorr.py")])

prop("C24", "Robust estimators are exact, equivariant and resist contamination",
     "Loss, influence, curvature and weight functions of the robust estimators are mutually consistent derivatives with correct normal expectations; robust regressions satisfy their estimating equations and are equivariant to scaling and to adding a linear function to the response. "
     "Fast dispersion estimators equal their quadratic-time definitions on every sample, ties included, are shift-invariant and scale-equivariant, and stay bounded when a minority of the data is moved arbitrarily far.",
     ["inputs"],
     "All samples (sizes, ties, outliers), tuning constants, designs and contaminations.",
     "Tests compare a few random samples without ties or contamination.",
     ["pyrobust/m_estimators.py", "pyrobust/dispersion_estimators.py", "pyrobust/rls.py"],
     [("psi functions", "pyrobust/m_estimators.py"), ("Sn/Qn/GMD", "pyrobust/dispersion_estimators.py"), ("robust regression", "pyrobust/rls.py")])

prop("C25", "Complex-survey designs give the design-based sandwich variance",
     "The variance of any weighted estimating-function fit under a stratified, clustered, weighted or finite-population-corrected design equals the between-cluster linearisation formula (unbiased over all samples for totals), for weighted regressions and GLMs alike. "
     "Relabelling or reordering strata, clusters or rows changes nothing, degenerate strata are treated as the chosen policy says, and domain estimates keep the full design. "
     "A replication study reports exactly what was drawn and fitted.",
     ["inputs", "configurations"],
     "All stratum/cluster layouts including singletons, label types, weights and finite-population corrections.",
     "Tests use one small layout.",
     [U+"complexdesign/sample_design.py", U+"complexdesign/replication.py", U+"complexdesign/population.py"],
     [("design", U+"complexdesign/sample_design.py"), ("replication study", U+"complexdesign/replication.py")])

prop("C26", "Canonical correlations, sparse components and factorisations are valid",
     "Canonical correlation analysis returns weights with unit-variance, mutually uncorrelated variates attaining the singular values of the whitened cross-covariance, also for collinear variables; the sparse version's weights satisfy their norm bounds and no iteration lowers its objective. "
     "Non-negative sequence factorisation keeps factors non-negative, with a reconstruction and penalty equal to their convolutive definitions and no increase of the error when unpenalised. "
     "Independent components are whitened and uncorrelated, converged ones solve the estimating equations, and the true sources of a mixture are a solution.",
     ["inputs"],
     "All data matrices, penalty bounds, component counts and seeds.",
     "Tests do not cover these modules beyond smoke runs.",
     ["pyscca/base_cca.py", "pyscca/scca.py", "pynmf/hfuncs.py", "pyica/ica.py"],
     [("CCA", "pyscca/base_cca.py"), ("sparse CCA", "pyscca/scca.py"), ("NMF", "pynmf/hfuncs.py"), ("ICA", "pyica/ica.py")])

prop("C27", "Skewed and heavy-tailed distributions are proper with exact derivatives",
     "For the sinh-arcsinh and skew-normal distributions the density integrates to one, the distribution function is its integral, quantiles invert it, moments match the density, random draws follow it, and the log-density derivatives up to fourth order with respect to every parameter are exact.",
     ["inputs"],
     "All parameter values in the domain and all observations, including far tails.",
     "Tests compare one derivative order with finite differences at a few points.",
     ["misc/sash.py", "misc/shashr.py", "misc/shash1.py", "misc/skewnorm_dist.py"],
     [("sinh-arcsinh", "misc/sash.py"), ("reparameterised", "misc/shashr.py"), ("skew normal", "misc/skewnorm_dist.py")])

prop("C28", "Dependence measures match their definitions and permutation tests are valid",
     "Distance correlation and the kernel independence criterion equal their definitions for every pair of samples, are symmetric, invariant to translation, rotation and (distance correlation) scale, and do not change when the rows of both samples are permuted together. "
     "Permutation p-values lie in (0,1], count correctly, and permute only one sample against the other.",
     ["inputs"],
     "All sample sizes, dimensions, ties and seeds.",
     "No test covers the module.",
     ["misc/independence_tests.py"], [("dcorr/dhsic", "misc/independence_tests.py")])

prop("C29", "Random generators return valid, exactly-moment-matched, reproducible objects",
     "Random correlation matrices from every method are symmetric positive definite with unit diagonal, exact multivariate-normal samples reproduce the requested mean and covariance to rounding, truncated draws stay inside their bounds and follow the truncated law, and model simulators return parameters and data satisfying their stated structure. "
     "A sampler or simulator that is given a seed or a generator returns the same result for the same seed, whatever was drawn before.",
     ["inputs", "configurations"],
     "All dimensions, methods, target moments, bounds and seeds.",
     "Draws are only used as inputs elsewhere in the suite and are never checked.",
     [U+"random.py", "pyfa2/simulation.py", "pyscca/cca_sim.py", "pylmm/sim_lmm.py"],
     [("generators", U+"random.py"), ("simulators", "pyfa2/simulation.py")])

prop("C30", "Formulas and designs encode random effects and groups faithfully",
     "For every mixed-model formula the fixed-effects part, the random-effect terms with their grouping factors and the response variables are recovered as written, and the random-effects design places each row's covariates in the block of that row's group for any label type, order of appearance or unused level, with parameter, matrix and block indices that address disjoint, exhaustive slices. "
     "Parameters written into the covariance and its factor land in the positions those indices declare.",
     ["inputs", "programs"],
     "All formulas in the documented grammar, label types (strings, numbers, categoricals), unbalanced and unsorted data.",
     "Tests parse a few fixed formulas with sorted integer groups.",
     [U+"formula.py", "pylmm/ranef_terms.py", "pylmm/re_mod.py", U+"data_utils.py"],
     [("formula parsing", U+"formula.py"), ("random-effect designs", "pylmm/ranef_terms.py")])

prop("C31", "Calls never modify caller data and repeated fits give repeated answers",
     "Constructing, fitting, evaluating or predicting with any model leaves the caller's arrays, data frames and option dictionaries unchanged, and evaluating or fitting again on the same inputs, on the same object or on a new one, after any other calls, gives the same numbers.",
     ["inputs", "histories"],
     "All model classes, inputs and sequences of public calls.",
     "Each test builds a fresh object and calls each method once; aliasing and stale state only show over a history of calls.",
     ["pyglm2/glm.py", "pylmm/re_mod.py", "pylmm/lmm.py", "pyfa2/likelihood.py", "pysem2/sem.py", "pygam/gam.py", "utilities/optimizer_utils.py"],
     [("cached design matrices and work buffers", "pylmm/re_mod.py"), ("memoised objective/jacobian", "utilities/optimizer_utils.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
    root = "/repo/"
    for p in P:
        for fn in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            if not os.path.exists(root + fn): print("missing", p["id"], fn)
