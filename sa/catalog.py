"""The properties: one source for properties.jsonl and MANIFEST.json (tools/gen.py)."""

A = "appletree/"


def P(id, title, statement, over, text, why, files, mech, observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [A + f for f in files],
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": list(observe)}}


PROPS = [
    P("C01", "Every random draw uses a fresh PRNG key",
      "In every sampler, plugin and simulation, no two random draws on any path consume the same PRNG key, no draw is keyed "
      "by a constant or by the wall clock inside a simulation, and the key handed back to the caller is derived from the key "
      "taken and has not been consumed.  Chaining two calls through the returned key therefore never correlates their draws.",
      ["programs", "inputs"], "all paths of all functions that take or make a PRNG key, including loop bodies and mapped functions",
      "A reused key gives samples that look right in every marginal; the tests only compare shapes or single marginals.",
      ["randgen.py", "plugins/", "component.py", "likelihood.py", "context.py"],
      [("key threading: every sampler returns (key, value)", "appletree/randgen.py"),
       ("plugins return the advanced key first", "appletree/plugins/")], ["returned key and drawn values"]),
    P("C02", "Simulation depends only on key, parameters and configuration",
      "With an explicitly given PRNG key or seed, parameters and configuration, simulated values, histograms and likelihoods "
      "depend on nothing else: no clock, process-wide random state, object identity or value left behind by an earlier simulation "
      "enters them, nor an environment variable read later than import, and no simulation code that is traced once and cached keeps "
      "what it computes in shared state.  Calls that recompile a component count as configuration.  "
      "Every explicit integer seed, 0 included, is honoured, and a seed given to a public call reaches the generator unchanged.",
      ["inputs", "histories"], "all seeds, keys and call histories; all code reachable from a simulation, sampler or interpolator",
      "Tests never run a simulation twice with the same key after other calls, and use no seed at all.",
      ["randgen.py", "plugins/", "component.py", "likelihood.py", "context.py", "parameter.py", "interpolation.py", "hist.py"],
      [("seed to key conversion", "appletree/randgen.py get_key"), ("template simulation from a seed", "appletree/context.py get_template"),
       ("explicit seeding of the prior draw", "appletree/parameter.py init_parameter")], ["simulate()", "get_template(seed=)"]),
    P("C03", "Fit parameters have one deterministic order everywhere",
      "The order of the fitted parameters is the sorted order of their names, independent of configuration order and of hash "
      "seeds, and the same order is used for the vector of start points, the dimension and names given to the sampler, the "
      "names stored in the backend and the naming of posterior samples.  Draws of start values are assigned to parameters in an "
      "order that does not depend on hash seeds.",
      ["configurations", "histories"], "all parameter configurations, hash seeds and sessions (a chain written by one process is read by another)",
      "Two processes with different hash seeds are needed to see a set-ordered chain; tests run in one process.",
      ["parameter.py", "context.py", "plot.py", "component.py"],
      [("sorted list of free parameters", "appletree/parameter.py parameter_fit"),
       ("sampler construction", "appletree/context.py pre_fitting"), ("metadata", "appletree/context.py _dump_meta")],
      ["backend attribute parameter_fit", "sampler.parameter_names"]),
    P("C04", "A plugin's declared interface is what its simulation uses",
      "For every shipped plugin, the simulation takes the key, the parameters and then exactly the declared inputs in the declared "
      "order; it returns the key followed by as many values as it declares outputs, in the declared order, on every path; an efficiency combines every input it declares; it reads only "
      "fit parameters it declares (or that its uncertainty maps declare) and reads every parameter it declares; and it uses exactly the "
      "configuration options it declares.  A plugin whose simulation takes other arguments than declared is rejected when it is made.",
      ["programs", "configurations"], "all shipped plugins and all paths of their simulations",
      "A swapped output or undeclared parameter gives a valid number of the wrong quantity; most plugins are only run, their outputs unchecked.",
      ["plugin.py", "plugins/"],
      [("depends_on / provides / parameters / takes_config", "appletree/plugins/"), ("signature check", "appletree/plugin.py sanity_check")],
      ["Plugin subclasses"]),
    P("C05", "Shipped components, instructions, parameters and maps fit together",
      "Every shipped simulation component can be built for its default outputs from the plugins it registers: each needed input is provided by a "
      "registered plugin, the dependencies have no cycle, and every plugin it needs can be found by name.  Every shipped instruction file names existing "
      "components, data, maps and parameter files and provides exactly the parameters needed; every default map or data file exists and has "
      "the coordinates and shape its use requires; every parameter entry has a known prior with its arguments, an ordered allowed range and a start value inside it.",
      ["configurations"], "all shipped components, instruction files, parameter files and map files",
      "Only a few instruct files are executed by the tests; an inconsistent pair is found only when a user selects it.",
      ["components/", "plugins/", "instructs/", "parameters/", "maps/", "contexts/", "data/"],
      [("component registration", "appletree/components/"), ("instruction files", "appletree/instructs/")], ["Context(instruct)"]),
    P("C06", "Simulation workflow runs each needed plugin once, after its inputs",
      "For any registered set of plugins with acyclic dependencies, the deduced workflow contains exactly the plugins that the requested outputs "
      "transitively need, each once, with every plugin after all providers of its inputs; the latest registered provider of a name is used and a name without provider is an error.  "
      "The generated simulation passes inputs in the declared order, binds outputs in the declared order, threads the key through every plugin and returns the key and the "
      "requested outputs in the requested order, with the efficiency last.",
      ["programs", "configurations"], "all plugin graphs and all requested output lists",
      "Tests deduce two or three fixed graphs; a different graph shape (diamond, long chain, multi-output) exercises other orders.",
      ["component.py"],
      [("dependencies_deduce", "appletree/component.py"), ("dependencies_simplify", "appletree/component.py"),
       ("flush_source_code", "appletree/component.py")], ["component.code", "component.worksheet"]),
    P("C07", "Simulated quantities stay in their physical ranges",
      "For every key, every parameter set and non-negative inputs, every efficiency or acceptance a plugin outputs lies in [0, 1] when its maps and parameters do, numbers of quanta, electrons, photons and "
      "hits are never negative, binomial draws never exceed their number of trials, and where quanta are split into photons and electrons the two add up to "
      "the quanta split.  Probabilities handed to binomial draws are in [0, 1] by construction, whatever the yields evaluate to.",
      ["inputs"], "all keys, batch sizes, energies and parameter values",
      "The violating draws are rare tails (low energy, extreme fluctuation) and change a result silently instead of failing.",
      ["plugins/", "randgen.py"],
      [("clipping and truncation in plugins", "appletree/plugins/"), ("binomial samplers", "appletree/randgen.py")], ["plugin outputs"]),
    P("C08", "Map interpolation is a convex combination of neighbouring nodes",
      "Every map interpolator returns a weighted mean of the map values at the nodes surrounding the (clamped) query, with each node's value "
      "multiplied by that node's own weight and the weights non-negative and adding up to one, so results never leave the range of the map values; at a node the node's value is returned (up to the "
      "distance regularisation), and queries outside the grid use the nodes of the edge cell.  Nearest-neighbour methods return the value at the node of minimal distance along each axis.",
      ["inputs"], "all query positions, grids and map values, for the 1D, 2D and 3D interpolators and all methods",
      "Tests compare a few methods on a few points within a coarse tolerance; a corner/weight mix-up in 3D shows only on asymmetric maps.",
      ["interpolation.py", "config.py"],
      [("interpolators", "appletree/interpolation.py"), ("method tables", "appletree/config.py Map")], ["Map.apply"]),
    P("C09", "Log-scaled axes are transformed consistently; other axes never",
      "On a map with logarithmic axes the query and the node coordinates of exactly the axes declared logarithmic are both taken to the same logarithmic scale before interpolation, while the "
      "other axes and the map values are left untouched.  Logarithmic axes with non-positive coordinates, and logarithmic pdf or cdf axes, are rejected when the map is built.",
      ["inputs", "configurations"], "all maps (point, regular, per-axis mixed) and all queries",
      "Only shipped map files are built in tests; a mismatch of scale between query and nodes still yields values in range.",
      ["config.py"], [("preprocess of query and nodes", "appletree/config.py Map.map_point/map_regbin"),
                      ("validation at build", "appletree/config.py")], ["Map.apply"]),
    P("C10", "One likelihood's configuration never leaks into another's",
      "When several likelihoods use the same plugin with different per-likelihood configuration, each simulates, reports its lineage and needed parameters, and is plotted with its own configuration, whatever the order of building, "
      "compiling and calling.  Later building of another likelihood never changes an already built one.",
      ["histories", "configurations"], "all orders of building and calling of likelihoods with per-likelihood configuration",
      "Tests build one likelihood at a time or only run, never compare, two.",
      ["plugin.py", "config.py", "component.py", "plot.py"],
      [("per-instance copy of configs", "appletree/plugin.py __init__"), ("per-likelihood function cache", "appletree/share.py")],
      ["Plugin instances", "lineage"]),
    P("C11", "User configuration wins over defaults; missing values are errors",
      "The value an option takes is the one configured by the user if there is one, else its default; a per-likelihood value is the one of exactly that likelihood, and a likelihood "
      "missing from a per-likelihood value, or an option with neither value nor default, is an error.  False-like configured values (0, 0.0, empty) count as configured, and file names in configuration are resolved to paths the same way as defaults.",
      ["configurations"], "all options, configured values, defaults and likelihood names",
      "Tests set a handful of truthy options.",
      ["config.py", "share.py"], [("cached configuration lookup", "appletree/config.py _resolve_cached_config/get_configs"),
                                  ("global configuration", "appletree/share.py set_global_config")], ["Constant/Map/SigmaMap.build"]),
    P("C12", "Uncertainty maps hit the median, upper and lower maps at 0, +1, -1",
      "An uncertainty map evaluates to its median map when its scale parameter is 0, to its upper map at +1 and to its lower map at -1, linearly in between and beyond on each side; "
      "the scale is the parameter it declares as needed.  The median, lower and upper maps come from the first, second and third configured file, the optional fourth entry names the parameter (default: map name plus _sigma), and a single file serves as all three with no parameter needed.",
      ["inputs", "configurations"], "all positions, sigma values and forms of configuration",
      "Shipped maps are nearly symmetric, so swapped sides pass the tests.",
      ["config.py"], [("apply", "appletree/config.py SigmaMap.apply"), ("build", "appletree/config.py SigmaMap.build")], ["SigmaMap.apply"]),
    P("C13", "Data and model are histogrammed by the same rule",
      "For every binning type and dimension, data, simulated and fixed-component events are put into histograms by the same rule over the same bin edges (the configured ones; for a number of bins on a mesh grid, that many equal steps across the configured clip) and "
      "observables, with events outside the edges dropped on all sides, and every in-range event of weight w adds exactly w to exactly one bin.  The region-of-interest selection of data is the open interval of the configured clip per axis, the same for every binning.",
      ["configurations", "inputs"], "all bin types, dimensions, events and weights",
      "A different binning rule for data and model biases fits without any failing test.",
      ["likelihood.py", "component.py", "hist.py", "utils.py"],
      [("data histogram", "appletree/likelihood.py _make_data_hist"), ("model histogram", "appletree/component.py implement_binning"),
       ("histogram functions", "appletree/hist.py")], ["data_hist", "simulate_hist"]),
    P("C14", "The log-likelihood is Poisson and never NaN",
      "The log-likelihood of binned data is the sum over bins of n*log(m) - m with n the data and m the expected counts of the whole model; it is minus infinity whenever a bin's expectation is not a positive finite number, and no path returns NaN.  "
      "The literature likelihood is the efficiency-weighted sum of the configured log density at the simulated yields, with NaN replaced by minus infinity.",
      ["inputs"], "all model and data histograms",
      "NaN appears for unusual parameters only; emcee accepts or aborts on it depending on the path.",
      ["likelihood.py"], [("Poisson term and its guards", "appletree/likelihood.py get_log_likelihood")], ["get_log_likelihood"]),
    P("C15", "Model counts every component exactly once, scaled by its own rate",
      "The model histogram is the sum over all registered components of their histograms, each once and each normalised with its own rate parameter: to the rate itself when normalised to the shape, or by rate over the number of "
      "simulated events when normalised to the simulation.  The weighted-event output uses the same normalisation as the histogram, and the key advances through every simulated component.  The expected number of accepted events is the sum of this histogram, and for a context the sum over its binned likelihoods.",
      ["configurations", "inputs"], "all sets of components, normalisation types and parameters",
      "Tests use one or two components and check only that numbers come out.",
      ["likelihood.py", "component.py"], [("sum over components", "appletree/likelihood.py _simulate_model_hist"),
                                           ("normalisation", "appletree/component.py get_normalization")], ["simulate_model_hist"]),
    P("C16", "Parameters outside their allowed range get zero prior and no simulation",
      "If any fitted parameter is outside its allowed range (the bounds belong to the range) the log prior is minus infinity and the posterior is minus infinity without any simulation being run; inside, the log prior is the sum of each "
      "fitted parameter's own prior term: Gaussian from mean and std, two-sided Gaussian from mode and errors, zero for free and uniform.  Fixed parameters contribute nothing.",
      ["inputs"], "all parameter values and prior configurations",
      "The sampler visits the outside only by chance; tests evaluate the prior at start points.",
      ["parameter.py", "context.py", "randgen.py"], [("log_prior", "appletree/parameter.py"), ("early return", "appletree/context.py log_posterior")],
      ["log_posterior"]),
    P("C17", "Start values lie in the allowed range and fixed parameters stay fixed",
      "Every start or prior draw of a fitted parameter is drawn from its own configured distribution and lies within its allowed range, and each fixed parameter has exactly its configured value, for every known prior type.  "
      "Setting parameters changes exactly the named parameters to the given values, and naming an unknown parameter or giving a list of a different length is an error.",
      ["inputs", "configurations"], "all prior configurations, seeds and parameter updates",
      "A missing clip shows only for draws in the tails; an unclipped start gives a walker of zero probability.",
      ["parameter.py", "randgen.py"], [("sample_prior / sample_init", "appletree/parameter.py"), ("set_parameter", "appletree/parameter.py")],
      ["Parameter"]),
    P("C18", "Name collisions are rejected, never silently overwritten",
      "Registering a likelihood, a component of a likelihood, or an extension module, plugin or component class under a name already taken raises an error and leaves the earlier one in place, unless forced; compiling two simulations "
      "for the same likelihood name is refused; conflicting defaults of one option in two plugins of a component, and an option declared twice by a plugin class, are errors.",
      ["histories"], "all sequences of registrations",
      "Tests register once; overwriting gives a working but different model.",
      ["context.py", "likelihood.py", "utils.py", "share.py", "component.py", "config.py"],
      [("guards before assignment", "appletree/utils.py _add_extension"), ("StaticValueDict", "appletree/share.py")], ["register_*"]),
    P("C19", "Objects the caller passes in are not modified",
      "Instruction and parameter dictionaries, parameter sets, data arrays and lists given to public calls are left unchanged by them: building a context, evaluating a likelihood or posterior, applying parameter aliases, "
      "simulating, plotting and requesting templates work on copies.  A parameter set returned by the posterior summary is independent of the context's state.",
      ["histories", "inputs"], "all public calls and arguments",
      "A mutated input changes the next call only; tests build fresh inputs for each call.",
      ["context.py", "parameter.py", "likelihood.py", "component.py", "plot.py", "config.py"],
      [("deep copies", "appletree/context.py, appletree/parameter.py, appletree/likelihood.py")], ["caller-side objects"]),
    P("C20", "Unsupported option values are rejected loudly",
      "A value outside the supported set of any enumerated option (binning type, dimension, normalisation type, prior type, posterior summary kind, map coordinate type, interpolation method, literature density, component type, "
      "data-file format, configuration value type) raises an error at the place it is used; no such value falls through to a default behaviour.",
      ["configurations"], "all values of the enumerated options",
      "Tests exercise supported values, and two or three of the unsupported.",
      ["likelihood.py", "component.py", "config.py", "parameter.py", "context.py", "utils.py", "share.py"],
      [("else: raise branches", "appletree/")], ["constructors and dispatch"]),
    P("C21", "A fit's backend file is enough to rebuild its context",
      "After a fit, or its continuation, the backend file holds valid JSON metadata from which the context is rebuilt: the instructions, the number of walkers and the batch size read back are the ones written, under the same names, and stored text is parsed as data, never executed.  "
      "The metadata describe the finished run: the parameter configuration, best-fit parameters, parameter order, configuration and version are stored after sampling.",
      ["histories"], "all instructions and fits, including file names and strings containing quotes or code",
      "Tests round-trip one instruct file.",
      ["context.py"], [("_dump_meta", "appletree/context.py"), ("from_backend", "appletree/context.py")], ["backend attributes"]),
    P("C22", "Posterior summaries describe the current, complete chain",
      "The best-fit, median and random posterior parameters always come from the chain of the latest fit or continuation, not from one seen earlier; the best fit is the stored sample with the highest stored log posterior, the chain and its log posteriors being selected identically, and "
      "values are attached to the right parameter names.  Continuing another fit starts from that fit's last ensemble state with its number of walkers.",
      ["histories"], "all sequences of fitting, continuing, loading and asking for summaries",
      "Needs a summary between two fits; the tests ask once.",
      ["context.py", "plot.py"], [("cache of chain and log posterior", "appletree/context.py get_post_parameters")], ["get_post_parameters"]),
    P("C23", "The lineage covers everything that determines the result",
      "Two contexts, likelihoods, components, plugins or options that differ in an option value, interpolation method, map or data file content, binning, plugin chain, a plugin's declared interface, the parameter scaling an uncertainty map, or instruction have different lineages; file content enters as a digest of the whole file.  Lineages are JSON "
      "serialisable, and the lineage hash is computed from the lineage alone.",
      ["configurations"], "all pairs of configurations and files",
      "Tests call the lineage once and check nothing about it.",
      ["config.py", "plugin.py", "component.py", "likelihood.py", "context.py", "utils.py"],
      [("lineage properties", "appletree/*.py"), ("calculate_sha256", "appletree/utils.py")], ["lineage", "lineage_hash"]),
    P("C24", "Files are looked up in the documented order; the first hit wins",
      "A resource name resolves to the first existing of: the path itself, the name under an absolute url_base, the package's own maps, data, parameters and instructs folders in this order, the installed auxiliary package, and the download; "
      "an existing earlier candidate is never shadowed by a later one, only existing paths are returned, and a name found nowhere is an error.",
      ["configurations", "fault_sequences"], "all names and contents of the search locations",
      "Tests resolve names that exist in exactly one place.",
      ["utils.py"], [("get_file_path", "appletree/utils.py")], ["get_file_path"]),
    P("C25", "Parameter aliases reach every simulation of a likelihood",
      "Whenever a likelihood or its context simulates or evaluates one of its components, the component receives the parameters with the likelihood's aliases applied: the aliased parameter's value appears under the name the model reads, the alias itself is removed and every other parameter is passed unchanged.  "
      "The parameters a likelihood reports as needed list the alias instead of the replaced name.",
      ["configurations"], "all alias tables, parameter sets and public evaluation calls",
      "One test uses one alias on one call path.",
      ["likelihood.py", "context.py", "plot.py"], [("need_replacing_alias", "appletree/likelihood.py")], ["component.simulate*"]),
    P("C26", "The posterior is the prior once plus every likelihood once",
      "For every set of likelihoods, one evaluation of the log posterior is the log prior of the given parameters, counted once, plus the log likelihood of every registered likelihood at these parameters and the requested batch size, counted once; with repeats it is the mean of that many evaluations with independent keys.  "
      "The log prior is reported alongside, and the sampler evaluates exactly this function with the requested batch size and repeats.",
      ["configurations", "inputs"], "all sets of likelihoods, parameters, batch sizes and repeat counts",
      "Tests run with one likelihood and one repeat.",
      ["context.py"], [("log_posterior", "appletree/context.py")], ["log_posterior"]),
    P("C27", "Configured options that were never used are reported, used ones are not",
      "The unused-configuration check warns about exactly the options that are configured but were never read by any build or simulation since the cache was last cleared; setting an option does not count as reading it, reading it in any build does, and clearing the cache forgets both.",
      ["histories"], "all sequences of configuration, building, clearing and checking",
      "No test asserts on the reported set.",
      ["share.py", "utils.py", "config.py"], [("RecordingDict", "appletree/share.py"), ("check_unused_configs", "appletree/utils.py")], ["check_unused_configs"]),
    P("C28", "Plots keep samples, log posteriors, names and map coordinates aligned",
      "In every plot of a chain, parameter samples, log posteriors and log priors are selected by the same burn-in, thinning and finiteness cuts so that they stay paired, and each panel shows the parameter it is labelled with, together with the prior density of that parameter and its value in the sample of largest posterior.  A plotted map shows its values at the coordinates they are stored for; collapsing an axis averages over that axis only and keeps the bounds, names and scales of the others.",
      ["inputs"], "all chains, including those with non-finite log posteriors, all thinning options and all maps",
      "Plot tests only check that no exception is raised.",
      ["plot.py"], [("Plotter", "appletree/plot.py")], ["Plotter"]),
    P("C29", "Needed parameters are complete and contain nothing else",
      "The needed parameters of a simulated component are exactly its rate (if it has one), the parameters declared by the plugins of its current workflow and those required by the options of these plugins in the configuration of the component's likelihood; a fixed component needs its rate.  A likelihood needs what its components need once they are deduced, with aliased names replaced by their aliases; a context needs what its likelihoods need plus the names copied for them, and refuses, before a fit starts, fit parameters that nobody needs.  Deducing again after a configuration change leaves no stale names.",
      ["inputs", "histories"], "all workflows, configurations of map uncertainties, aliases and orders of registration", "Tests print the needed parameters of the shipped examples and do not compare them with what the simulation reads.",
      ["component.py", "likelihood.py", "context.py", "config.py"], [("ComponentSim.dependencies_simplify", "appletree/component.py"), ("Likelihood.register_component", "appletree/likelihood.py"), ("Context._sanity_check", "appletree/context.py")], ["dependencies_simplify", "register_component", "required_parameter"]),
    P("C30", "Energies and positions are drawn from the configured spectra",
      "Energies are drawn one per event from the configured spectrum: uniformly between the configured limits, at the configured mono energy, with the configured two-sided widths, or by inverse-transform sampling of a spectrum map.  A spectrum given as a density is integrated to its normalised cumulative distribution and inverted before it is sampled; maps of other quantities are stored unchanged.  "
      "Positions fill the configured cylinder evenly: depth uniform between the limits, radius squared uniform up to the square of the maximal radius, full circle in angle, independently of each other.",
      ["inputs", "configurations"], "all limits, spectra and batch sizes", "Tests look at the shape of the output, not at how it is distributed.",
      ["plugins/common.py", "plugins/nestv2.py", "plugins/detector.py", "config.py", "utils.py"], [("Map.pdf_to_cdf", "appletree/config.py"), ("PositionSpectra", "appletree/plugins/common.py"), ("integrate_midpoint", "appletree/utils.py")], ["simulate", "Map.build"]),
    P("C31", "Samplers and densities are built by their defining construction",
      "Each sampler of randgen composes library draws into exactly the variate that defines its distribution, for the parameters and the shape it is given: location and scale applied to a standard draw, clipping only where stated, a Poisson mixed with a gamma for the negative binomial, a branching process run until it dies out for the generalised Poisson, counted uniforms or a corrected normal approximation for the binomial, the sides of a two-sided normal chosen with the probability of the density.  "
      "The log density of the two-sided normal is normalised and belongs to the same parameters, and asymmetric errors are turned into scales such that half of the probability outside the errors lies beyond each of them.",
      ["inputs"], "all parameters, shapes and sample sizes", "Tests draw a few samples and check their shape or a mean.",
      ["randgen.py", "utils.py"], [("samplers", "appletree/randgen.py"), ("TwoHalfNorm", "appletree/randgen.py"), ("errors_to_two_half_norm_sigmas", "appletree/utils.py")], ["randgen samplers", "TwoHalfNorm.logpdf"]),
    P("C32", "Quanta are conserved and gains mean what their names say",
      "Along the chain from deposited energy to corrected signals, whatever is drawn, photons and electrons add up to the quanta, and so do excitons and ions.  On average every step does what its parameter is defined as: quanta are energy over w, detected photons g1 times the relative light collection, S2 photoelectrons g2 times the relative collection for each drifted electron, double photoelectron emission cancels out of both, electrons survive drift with the exponential of drift time over lifetime, corrections undo the relative response, efficiencies multiply.  "
      "Each step fluctuates with the width stated for it, and each map is evaluated at the quantities it is a map of; the field is the map's when position dependence is configured and the parameter otherwise, the reconstructed radius is that of the reconstructed position.",
      ["inputs"], "all inputs, parameters, maps and draws", "Tests run the chains and look at shapes; a misplaced factor leaves them so.",
      ["plugins/detector.py", "plugins/er_microphys.py", "plugins/er_nestv2.py", "plugins/nestv2.py", "plugins/lyqy.py", "plugins/reconstruction.py", "plugins/efficiency.py"], [("plugins", "appletree/plugins/")], ["simulate"]),
    P("C33", "Yield formulas are the published parametrisations",
      "The deterministic yields, exciton-to-ion ratios, recombination probabilities and fluctuation strengths are the published functions (NEST v2, Thomas-Imel box, double Fermi-Dirac cut) of energy, field, density and parameters, kept within the limits these need: no negative yields, probabilities in [0, 1], no photons and electrons where their means add up to less than one quantum, nothing undefined where there are no quanta.",
      ["inputs"], "all energies, fields and parameters in the physical range", "The tests contain no reference values.",
      ["plugins/er_microphys.py", "plugins/er_nestv2.py", "plugins/nestv2.py"], [("yield plugins", "appletree/plugins/")], ["simulate"]),
]

NA = [
    P("C60", "Samples follow the distribution within statistical error",
      "A finite sample of any sampler is compatible with the distribution it is named after, including the accuracy of the normal approximation used for large binomials.",
      ["inputs"], "all parameters and sample sizes", "Distribution tests are statistical and sample a few parameters.",
      ["randgen.py"], [("samplers", "appletree/randgen.py")]),
    P("C61", "Simulated yields reproduce measured yields",
      "With the shipped parameters the simulated light and charge yields agree with the measured ones.",
      ["inputs"], "all energies and fields", "No measured values are compared.",
      ["plugins/nestv2.py", "plugins/er_nestv2.py", "plugins/er_microphys.py", "plugins/lyqy.py"], [("yield plugins", "appletree/plugins/")]),
    P("C62", "The Markov chain converges to the posterior",
      "Given enough iterations the sampled chain represents the posterior distribution.",
      ["histories"], "all models and chain lengths", "Convergence is asymptotic.", ["context.py"], [("emcee sampler", "appletree/context.py")]),
    P("C63", "Equiprobable bins hold equal shares of the data",
      "Equiprobable binning yields bins with equal event counts up to ties and integer constraints.",
      ["inputs"], "all data sets and partitions", "The binning is computed by a third-party library.", ["utils.py"],
      [("get_equiprob_bins", "appletree/utils.py")]),
    P("C64", "The conversion of asymmetric errors converges",
      "The root finder that turns asymmetric errors into scales of a two-sided normal converges for every pair of errors.",
      ["inputs"], "all errors", "Tests convert two pairs.", ["utils.py"],
      [("errors_to_two_half_norm_sigmas", "appletree/utils.py")]),
    P("C65", "Likelihood evaluations are fast and memory bounded",
      "Evaluation time and device memory stay bounded and the profiler's timings are accurate.",
      ["inputs"], "all batch sizes", "Depends on hardware.", ["profiler.py"], [("profiler", "appletree/profiler.py")]),
    P("C66", "Simulation results agree between CPU and GPU and across batch sizes",
      "The same model gives statistically equal results on every device and for every batch size.",
      ["configurations"], "all devices and batch sizes", "Only CPU is available.", ["component.py"], [("jit", "appletree/component.py")]),
]

NA_REASON = {
    "C60": "a statement about finite samples and about the accuracy of an approximation; the construction of every sampler is decided under C31, the distance between distributions is not a structural fact",
    "C61": "agreement with measurements that are not in the source; that the formulas are the published ones is decided under C33",
    "C62": "asymptotic, probabilistic property of emcee on a data-dependent target; not a property of this source",
    "C63": "the edges are computed inside GOFevaluation (third party) from runtime data; only the arguments handed over are visible here (checked under C13)",
    "C64": "convergence of scipy's iterative root finder; the equations it is given are decided under C31",
    "C65": "running time and device memory are quantities of an execution on particular hardware",
    "C66": "floating-point and device behaviour of XLA-compiled code, not decidable from this source",
}
