#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "PYTHONHASHSEED=0 /opt/venv/bin/python check.py"
STAT = (
    "Runtime monitoring only: holds on the executions observed. Statistical verdicts escalate: a p-value below 1e-3 only "
    "repeats the task with fresh seeds and more draws, below 1e-6 then is a violation. "
)
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(
        line=dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=["aemcmc/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                         observe_at=observe),
        ),
        check=dict(
            property=id, quick_cmd=f"{PY} {id}", thorough_cmd=f"{PY} {id} --tier thorough", technique=technique,
            level="exploration", level_note=note,
        ),
    )


prop("C01", "Closed-form conjugate steps draw from the exact posterior",
     "For gamma-Poisson and beta-binomial models the sampling step returned for the prior variable draws independently from the exact "
     "closed-form posterior given the data, elementwise and with the shape of the variable, whatever the prior parameters, data and shapes "
     "(scalars, vectors, matrices, symbolic or shared, hyperparameters that are themselves sampled). "
     "The same holds for beta-negative binomial models.",
     ["inputs", "programs", "configurations"],
     "All prior parameters and data in the support, all shapes and ways to supply them, the graph rewrites applied before recognition.",
     "The tests compare the step's graph with an expected graph, or run one model; none checks the law of the draws over parameters and shapes "
     "(the gamma-Poisson rate was wrong for vectors of data).",
     ["conjugates.py", "basic.py"],
     [("gamma_poisson_conjugateo", "conjugates.py"), ("beta_binomial_conjugateo", "conjugates.py"),
      ("beta_negative_binomial_conjugateo", "conjugates.py"), ("local_*_posterior", "conjugates.py")],
     ["values of compiled sampler.sample_steps for the prior variable"],
     "online monitor of compiled steps: exact PIT oracle on random models",
     STAT + "Trusts scipy's distribution functions and Aesara's random variables. Known finding: the beta-negative binomial relation "
     "(a stable test enforces it) is compared with the recorded wrong law, so any other deviation is reported.")

prop("C02", "Gaussian conditionals of regressions have the exact mean and covariance",
     "The multivariate normal samplers, and the linear regression coefficient step built on them, return draws whose mean and covariance are exactly "
     "those of the Gaussian full conditional, for every design matrix (more rows than columns or fewer), every positive weights and prior "
     "scales, and for both dense and sparse precision inputs.",
     ["inputs", "configurations"],
     "All dimensions (n > p, n = p, n < p), designs including collinear ones, weights and scales over several orders of magnitude, and every algorithm branch.",
     "The tests compare moments of a few hundred draws at one or two fixed designs with loose tolerances, so errors in rarely taken branches, "
     "scales or cross-covariances pass.",
     ["dists.py", "gibbs.py"],
     [("multivariate_normal_rue2005", "dists.py"), ("multivariate_normal_cong2017", "dists.py"), ("normal_regression_posterior", "gibbs.py")],
     ["values of the compiled graphs"],
     "online monitor: each draw is whitened with the exact conditional and tested",
     STAT + "Every draw is whitened with an independent dense Cholesky factor; a bound on the conditioning of the inputs applies.")

prop("C03", "Logistic regression steps leave the coefficients' posterior invariant",
     "The steps for the coefficients of Bernoulli and negative binomial logistic regressions with zero-mean normal priors leave the exact posterior of "
     "the coefficients invariant: a state drawn from the joint law of coefficients and data still has that law after the step. "
     "Given the auxiliary variables that the step draws, the new coefficients follow exactly the corresponding Gaussian conditional.",
     ["inputs", "programs", "configurations"],
     "All designs, prior scales (scalar, vector, latent), dispersions and data, constructed directly or by model recognition.",
     "The tests check shapes and recovery of fixed coefficients up to tolerance in one long run; a step with the wrong sign or scale passed them.",
     ["gibbs.py", "dists.py"],
     [("nbinom_normal_posterior", "gibbs.py"), ("bern_normal_posterior", "gibbs.py"), ("nbinom_logistic_finder", "gibbs.py"),
      ("bern_logistic_finder", "gibbs.py")],
     ["compiled steps", "Polya-gamma draws (random variable event log)"],
     "joint-law (Geweke) monitor plus exact conditional given the logged auxiliary draws",
     STAT + "Trusts the polyagamma library for the auxiliary law (checked separately by C17).")

prop("C04", "The horseshoe step leaves the posterior of the shrinkage parameters invariant",
     "The step for the local and global scales of a horseshoe prior leaves their exact posterior given the coefficients (and noise scale, when it is given) "
     "invariant, for any number of coefficients and over the whole heavy-tailed range of the scales.",
     ["inputs", "programs", "configurations"],
     "All coefficient vectors including tiny and huge ones, one or many coefficients, scalar or one-element global scale, direct or recognized use.",
     "The tests check graphs and that a sparse signal is roughly recovered; they passed while the auxiliary exponentials used inverted scales.",
     ["gibbs.py"],
     [("horseshoe_posterior", "gibbs.py"), ("horseshoe_match", "gibbs.py"), ("normal_horseshoe_finder", "gibbs.py")],
     ["compiled steps"],
     "joint-law (Geweke) monitor with PIT oracle",
     STAT)

prop("C05", "Table-count and dispersion draws follow their exact conditional",
     "Chinese-restaurant-table counts have exactly their law for every count and concentration, are independent across elements, and "
     "the gamma dispersion of a negative binomial is drawn from its exact conditional given the coefficients and data.",
     ["inputs", "programs", "configurations"],
     "All counts (including zeros), concentrations over several orders of magnitude, shapes, designs and gamma priors.",
     "The tests compare a mean at a single setting.",
     ["gibbs.py"],
     [("sample_CRT", "gibbs.py"), ("nbinom_dispersion_posterior", "gibbs.py"), ("nbinom_logistic_finder", "gibbs.py")],
     ["compiled graphs and steps"],
     "online monitor: exact pmf (convolution) and mixture PIT oracles",
     STAT + "Known finding: the dispersion step found in models uses the other outcome's probability (a stable test enforces it); its law is "
     "tested against the recorded one, so any other deviation is reported.")

prop("C06", "Forward-filtering backward-sampling draws exact posterior state paths",
     "Given initial probabilities, transition matrices and log-likelihoods, the sampled path of hidden states has exactly its joint posterior law, for "
     "homogeneous and time-varying chains, deterministic transitions and impossible states, any number of states and times.",
     ["inputs", "configurations"],
     "All numbers of states and time steps, transition matrices with zeros, log-likelihoods of any level, per-time or common transition matrices, constants or symbolic.",
     "The tests check one or two chains and that a strongly identified path is recovered.",
     ["ffbs.py"],
     [("ffbs_step", "ffbs.py"), ("forward pass", "ffbs.py"), ("backward pass", "ffbs.py")],
     ["compiled ffbs_step"],
     "online monitor: every path decoded into exact conditional PITs, plus enumeration oracle",
     STAT + "Assumes per-time likelihood ratios between states below exp(600).")

prop("C07", "The NUTS stage targets the right density from the right state",
     "The NUTS stage of a sampler gives its kernel, up to a constant, the exact joint log-density of the variables left to it "
     "given the data and the values just drawn by the other steps, in unconstrained coordinates and including the change of variables. "
     "It starts from the current values, maps every position back to values inside the support of every variable, uses the given step size and mass matrix, "
     "and leaves the posterior invariant when its kernel leaves that density invariant.",
     ["inputs", "programs", "configurations"],
     "All models with a NUTS stage: supports that depend on other variables, vectors, matrices and simplices, hierarchies, and mixtures with other steps; all states, data and positions.",
     "The tests run a handful of steps on two or three models and look at shapes; several genuine defects in transforms and realized values passed them.",
     ["nuts.py", "basic.py"],
     [("step", "nuts.py"), ("construct_sampler", "nuts.py"), ("transform_forward / transform_backward", "nuts.py"), ("NUTS fallback", "basic.py")],
     ["arguments and result of the kernel (probe kernel)", "compiled sampler"],
     "probe kernel checked online against the numpy joint density and numerical Jacobian; invariance with a Metropolis kernel; real-kernel smoke runs",
     STAT + "The kernel of the dependency aehmc is replaced with a probe or a Metropolis kernel; aehmc itself is out of scope.")

prop("C08", "Composite samplers leave the whole model's joint posterior invariant",
     "Calling the constructed sampler any number of times leaves the joint posterior of all unobserved variables invariant, for any composition "
     "of conjugate, regression, horseshoe and NUTS steps that share variables and hyperparameters. It remains true when data are simulated again between calls.",
     ["programs", "inputs", "histories"],
     "All models composed of supported and unsupported parts with shared hyperparameters, all states and data, and histories of several calls.",
     "The tests check single-step models or the structure of the sampler; interactions between steps (old values used by later steps) passed them.",
     ["basic.py", "nuts.py", "gibbs.py", "rewriting.py", "conjugates.py"],
     [("construct_sampler", "basic.py"), ("scan order and updated values", "basic.py"), ("kernel inputs", "gibbs.py")],
     ["compiled sampler over several calls"],
     "joint-law (Geweke) monitor on hand-written and randomly generated composite models",
     STAT + "A Metropolis kernel stands in for aehmc's kernel; models with the dispersion step are excluded because of C05's known finding.")

prop("C10", "Special-purpose steps are only used for models they are valid for",
     "A model that resembles a supported structure but differs from it (a further child, a transformed parameter, another prior or link, other "
     "dimensions or shared parameters) never gets a step that is wrong for it: the constructed sampler leaves the posterior of the model as written invariant.",
     ["programs", "inputs"],
     "All models that differ from a supported structure in at least one respect.",
     "The tests try a few graphs that must not match; 124 near-misses here, of which many were accepted by the original matchers.",
     ["gibbs.py", "conjugates.py", "rewriting.py"],
     [("horseshoe_match", "gibbs.py"), ("nbinom_sigmoid_dot_match / bern_sigmoid_dot_match", "gibbs.py"), ("normal_regression_match", "gibbs.py"),
      ("is_only_child", "rewriting.py"), ("has_same_shape", "conjugates.py")],
     ["compiled sampler"],
     "joint-law (Geweke) monitor on a catalogue of near-miss models",
     STAT + "Judges validity only: leaving a model to NUTS is always accepted here.")

prop("C09", "Samplers are complete, closed and keep states in the model's domain",
     "construct_sampler returns, for every unobserved variable of the model, exactly one sampling step and an initial value of its type, and "
     "with the observations, the model's own free inputs and the sampler's parameters this is all that is needed to compile and run it. "
     "A call maps every admissible state to a state with the same types and shapes inside the support, and no step draws the model's prior variables "
     "or data again. It holds for every choice of which variables are observed.",
     ["programs", "inputs", "configurations"],
     "All models, all partitions of their variables into observed and unobserved, all admissible states, symbolic or shared or constant inputs.",
     "The tests look at a few models with one choice of observations; they don't look at what the compiled function draws.",
     ["basic.py", "utils.py", "nuts.py"],
     [("construct_sampler", "basic.py"), ("ModelInfo", "utils.py"), ("Sampler", "types.py"), ("NUTS fallback", "nuts.py")],
     ["construct_sampler's result", "compiled sampler", "random variable event log"],
     "structural monitor on the constructed sampler plus an online log of every random draw of the compiled calls",
     "Runtime monitoring only: holds on the executions observed. A Metropolis kernel stands in for aehmc's kernel.")

prop("C11", "Random draws are independent and chains are reproducible from the seed",
     "A sampler never uses the same stretch of a random stream for two draws, within a call or across calls, so that all draws of a chain are independent. "
     "Its chain is determined by the seed of the random stream: the same in another build, in another process, and after re-seeding; "
     "different for different seeds. It neither reads nor moves numpy's global generator.",
     ["histories", "programs", "configurations"],
     "All models and histories of calls, all seeds, all processes and hash seeds.",
     "The tests never look at the state of generators; two kernels had their updates attached to the wrong generator, so that draws were repeated in each call.",
     ["basic.py", "gibbs.py", "conjugates.py", "dists.py", "nuts.py", "sample.py"],
     [("RandomStream use and updates", "gibbs.py"), ("Sampler.updates", "basic.py"), ("order of NUTS variables", "basic.py")],
     ["event log of (stream, position before, position after) per draw", "bitwise comparison of chains"],
     "offline checker over the logged stream positions of every draw; differential runs across builds, processes and seeds",
     "Runtime monitoring only: holds on the executions observed. Streams of different generator objects are taken to be independent.")

prop("C12", "Prior sampling draws independent joint realizations of the model",
     "sample_prior draws exactly the requested number of independent realizations from the joint prior law of the requested variables, with the dependence "
     "between variables and each variable's shape kept in every realization; the given updates make every call's draws new, and draws and their "
     "order are those of the requested variables.",
     ["programs", "inputs", "histories"],
     "All models, subsets of variables, numbers of draws, seeds and histories of calls.",
     "The tests check shapes and one mean.",
     ["sample.py"],
     [("sample_prior", "sample.py")],
     ["compiled prior function", "random variable event log"],
     "exact PIT of every realization against the numpy model; stream-position log across calls",
     STAT)

prop("C13", "Constructing samplers leaves the model intact and can be repeated",
     "Constructing a sampler (or prior sampler) changes nothing about the model it is given: its graph, names, shared values, observations and "
     "random stream stay as they were, and the model's own draws are the same afterwards. Constructing several samplers for one model "
     "gives equivalent, independent and correct samplers that do not interfere with one another.",
     ["programs", "histories"],
     "All models, all orders of constructing, compiling and calling samplers and prior samplers for one model.",
     "The tests construct one sampler per model and never look at the model again; a second construction failed or gave wrong steps in several models.",
     ["basic.py", "rewriting.py", "nuts.py", "utils.py", "sample.py"],
     [("construct_sampler", "basic.py"), ("construct_ir_fgraph", "rewriting.py"), ("joint log-density clone", "nuts.py")],
     ["identity of every variable and node of the model before and after", "compiled chains compared bitwise with an untouched twin's"],
     "state snapshot monitor around every construction; differential runs against an untouched twin",
     STAT)

prop("C14", "The intermediate representation of a model is the same model",
     "The intermediate representation that samplers are built from denotes the same model: it contains exactly the model's random variables, each "
     "with its distribution, generator, size and, given values of the variables it depends on, the same values of its parameters. "
     "No random variable is copied, dropped or merged, and expanding the representation again gives the same model, for every expression between variables.",
     ["programs", "inputs"],
     "All graphs of random variables connected by elementwise operations, dimension shuffles, indexing, joins, reductions and constants.",
     "The tests compare a handful of rewritten graphs with expected ones; whether a rewrite preserves values depends on the shapes, "
     "constants and dimension patterns it meets (four defects were found).",
     ["rewriting.py"],
     [("construct_ir_fgraph", "rewriting.py"), ("SubsumingElemwise", "rewriting.py"), ("local_elemwise_dimshuffle_subsume", "rewriting.py"),
      ("sampler_rewrites_db", "rewriting.py")],
     ["parameters of every random variable in the original, intermediate and expanded graph, evaluated at the same values"],
     "differential monitor: random graphs evaluated before, in and after the representation",
     STAT + "Graphs that Aesara's own canonicalization, run without aemcmc, changes are skipped and counted.")

prop("C16", "Transform relations preserve the distribution of a variable",
     "When location_scale_transform or invgamma_exponential gives a replacement for a variable, the replacement has the variable's law, "
     "given its parameters, with its shape, type and generator and an independent draw for every element; normal, Cauchy, "
     "Laplace, logistic and Gumbel variables have such a replacement, variables of other families only if it has their law, and inverse gammas if their shape "
     "parameter is one. Replacing a variable in the middle of a model keeps the joint law.",
     ["inputs", "programs"],
     "All families, shapes of the parameters, sizes, and ways to supply them (constants, inputs, shared, other variables).",
     "The tests compare one graph per family with an expected graph; they can't see shapes, independence of the elements or the law.",
     ["transforms.py"],
     [("location_scale_transform", "transforms.py"), ("invgamma_exponential", "transforms.py")],
     ["draws of the compiled replacement expressions"],
     "online monitor: exact PITs of the draws of replacements; joint law of models with replacements",
     STAT + "Known finding: a stable test enforces the reciprocal of an exponential of scale c for InvGamma(1, c); draws are compared with the "
     "recorded law, so any other deviation is reported.")

prop("C17", "Polya-gamma draws follow their law for all parameters",
     "The Polya-gamma random variable draws PG(h, z) for all h (integer or not, small or large) and all z (zero, negative, large), elementwise "
     "with the usual broadcasting and size rules, finite and in the declared floating-point type, from its own generator only, "
     "reproducibly from a seed and with fresh draws in each call; invalid h is rejected.",
     ["inputs", "histories"],
     "All h > 1e-4, all z, shapes, sizes, seeds and generators, precisions, repeated calls and loops.",
     "The tests draw from a couple of fixed parameters and look at shapes or moments; draws with large z and h > 8 were wrong or NaN.",
     ["dists.py"],
     [("PolyaGammaRV", "dists.py"), ("rng_fn", "dists.py")],
     ["values of compiled polyagamma draws", "event log of generators"],
     "online monitor: empirical characteristic functions against the closed form; draw log",
     STAT + "Deviations of the characteristic function below 0.03 (0.08 for h > 50), the accuracy of the underlying library, are accepted.")

prop("C18", "Supported models get their special steps however they are written",
     "The variables of supported models (gamma-Poisson, beta-binomial, beta-negative binomial, Bernoulli and negative binomial regressions with normal "
     "or horseshoe priors, gamma dispersion) get their special-purpose steps, without tuning parameters, "
     "whatever the kind of inputs, shapes, names, order of construction or the spelling of the predictor and of the scales, and also next to other "
     "parts of the same model; all other variables are left to NUTS. Closed-form steps don't need the variable's own value. "
     "The documented examples work.",
     ["programs", "configurations"],
     "Combinations of spellings, input kinds, shapes, names and parts of a model.",
     "The tests build each supported model in one or two spellings; a recognizer that stops matching a spelling silently falls back to NUTS.",
     ["basic.py", "rewriting.py", "gibbs.py", "conjugates.py"],
     [("construct_sampler", "basic.py"), ("local rewrites and relations", "gibbs.py, conjugates.py")],
     ["sampler.sample_steps, sampler.parameters, values of the compiled steps"],
     "monitor of constructed samplers over randomly spelled models",
     STAT + "Spellings that were never recognized are listed in DESIGN.md under Limits and not generated.")

prop("C20", "Chains from any state reach the posterior and stay finite",
     "Repeatedly applying the returned steps converges to the posterior from any start: chains started at states unrelated to the data end up distributed "
     "as the posterior, and chains started at extreme states, or given data the model hardly ever "
     "produces, stay finite, in the support and of the same shape.",
     ["inputs", "histories"],
     "All start states in the support, data sets, supported models and lengths of chains.",
     "The tests run at most a few steps from benign states; states that freeze, drift or overflow later can't be seen.",
     ["basic.py", "gibbs.py", "dists.py", "nuts.py", "conjugates.py"],
     [("composition of the steps", "basic.py"), ("sampling steps", "gibbs.py"), ("Polya-gamma draws", "dists.py")],
     ["states of compiled chains"],
     "online monitor of long chains: joint law after convergence from unrelated starts, finiteness and support",
     STAT + "Numbers of steps after which convergence is expected are fixed per model with a wide margin; "
     "Metropolis stands in for aehmc's NUTS kernel.")

prop("C15", "Descriptions of models, samplers and generator updates are consistent",
     "A ModelInfo's derived fields agree with its arguments: observed and unobserved variables partition the mapped ones, in order, values are aligned "
     "with them, the value-to-variable map is the inverse, every variable is found under its name, and missing, empty or duplicate names "
     "are rejected. A Sampler's stages partition its variables by step in scan order. get_rv_updates gives the "
     "update of every generator that the given variables draw from (and of other shared variables with updates), and no others; "
     "remove_constants keeps exactly the non-constant inputs, in order.",
     ["inputs", "programs"],
     "All mappings, orders, subsets of observed variables, names, graphs of random variables and ways generators are updated.",
     "The tests check one or two fixed descriptions; mistakes in order, alignment or completeness show for other subsets and orders only.",
     ["utils.py", "types.py"],
     [("ModelInfo", "utils.py"), ("get_rv_updates", "utils.py"), ("remove_constants", "utils.py"), ("Sampler", "types.py")],
     ["fields of the constructed objects", "generators advanced by compiled calls"],
     "monitor of constructed descriptions against recomputed ones; log of advanced generators",
     STAT)

prop("C19", "Steps give the same draws however they are compiled and called",
     "With the same seed, states and data, a sampler's steps give the same draws whatever the compilation mode, the order and subset of outputs "
     "and inputs, whether the states or data are inputs, shared variables, constants or givens, whether states are kept by "
     "updates of shared variables, and whether several compiled functions alternate.",
     ["programs", "configurations", "histories"],
     "All supported models, ways to compile and call, and histories of calls.",
     "The tests compile each step one way and look at one call; a step that depends on another output being computed, or on rewrites, isn't seen.",
     ["basic.py", "gibbs.py", "conjugates.py", "nuts.py", "types.py"],
     [("SamplingStep", "types.py"), ("construct_sampler", "basic.py"), ("updates of the steps", "gibbs.py, nuts.py")],
     ["values of the compiled steps, per step of a reference chain"],
     "differential monitor: chains of differently compiled functions replay a reference chain step by step",
     STAT + "Metropolis stands in for aehmc's NUTS kernel. aesara.scan over cloned steps isn't covered (see DESIGN.md).")

ORDER = sorted(P)


def main():
    have = [i for i in ORDER if os.path.exists(os.path.join(HERE, "aemon/checks", i.lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i in have:
            f.write(json.dumps(P[i]["line"]) + "\n")
    m = dict(
        version=1,
        setup_cmd="PYTHONHASHSEED=0 /opt/venv/bin/python -c 'import aemon.env, numpy, scipy'",
        checks=[P[i]["check"] for i in have],
        not_applicable=[],
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
