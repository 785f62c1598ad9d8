"""What DESIGN.md says about each check beyond what its rules declare."""

# id -> (oracle, bounds, why tests cannot reach it)
NOTES = {
    "C01": ("linearity of keys: a key term may be consumed once", "all functions of the package that take or make a key; loops by one generic iteration plus the entry, so no bound on iterations",
            "a reused key only correlates draws; every single sample still looks right"),
    "C02": ("a list of entropy sources of Python, numpy and jax; everything else must stem from key, parameters or configuration", "whole call graph; calls into other packages are assumed to add no entropy",
            "a hidden input shows only in a second process, on another day or after another simulation"),
    "C03": ("sorted() of the fitted names", "all uses of an ordered list of fitted names found by following parameter_fit", "a set's order differs between interpreter runs; one run agrees with itself"),
    "C04": ("the declarations of the plugin class", "every plugin class of the package, all paths", "wrong positions or undeclared reads only show for particular plugins and paths"),
    "C05": ("the declarations of all shipped classes against one another and against the shipped json and csv files", "all shipped components, instruction, parameter and map files",
            "tests build a handful of the shipped combinations"),
    "C06": ("the reachability closure of the requested outputs, by induction over the acyclic graph (below)", "all graphs: the walk is a recursion over names, analysed once for a generic name", "tests see the shipped chains only"),
    "C07": ("physical ranges: [0, 1] for probabilities, 0 from below for counts", "parameters and options within the shipped ranges, maps within the shipped ranges (uncertainty maps unbounded)", "a probability slightly above 1 makes the sampler return zeros without an error"),
    "C08": ("multilinear weights, normalised inverse-distance weights, nearest node", "all grids, sizes, dimensions 1 to 3 and all positions of the query relative to the grid", "tests sample a few queries on one grid"),
    "C09": ("log10 of coordinate and query on exactly the axes declared so", "every assignment of scales to up to three axes; every sign of the coordinates", "tests use two maps"),
    "C10": ("each instance owns deep copies of what was built for its likelihood", "all classes and registries of the package", "a leak needs two likelihoods, different values and a particular order of building"),
    "C11": ("the value a world of the configuration table prescribes", "worlds: (un)configured x default x likelihood x truth value of the value; symbolic values", "false-like values and missing likelihoods are the untested corners"),
    "C12": ("piecewise linear function of the scale written in sa/specs", "all scales: the line is split at every threshold that occurs in the code", "tests evaluate three points"),
    "C13": ("the call made for the data is the specification of the call made for the model", "all bin types and dimensions", "agreement is only tested for the bins of the examples"),
    "C14": ("sum(n log m - m), -inf for unusable bins", "classes of bins, at most two classes at a time (the code is elementwise plus a sum)", "an unusable bin alone or among good ones is rarely sampled"),
    "C15": ("sum over components of histogram times rate", "any number of components and both normalisations", "tests have one or two components"),
    "C16": ("each prior's log density, in sa/specs; -inf outside", "all weak orders of value and bounds; any number of parameters", "boundary values have probability zero"),
    "C17": ("draw of the configured distribution, clipped to the allowed range as last operation", "all prior types", "an unclipped draw is rare"),
    "C18": ("the registry with the name taken must be unchanged when the error is raised", "all registering functions, names free and taken, forced or not", "order of test and store matters only on failure"),
    "C19": ("no in-place effect on an object of the caller", "all public functions; effects propagated to a fixpoint", "aliasing shows in the caller, after the call"),
    "C20": ("an unsupported value must raise where it is used", "all dispatch sites on enumerated options", "unsupported values are not tested"),
    "C21": ("pairing of writes and reads of the backend attributes", "all paths of a fit and its continuation", "needs a file and a second process"),
    "C22": ("specification of each summary; dropped caches", "all histories of fits: invalidation is per fit; the summaries themselves on a chain of three walkers and four steps with given posteriors", "needs two fits in one process"),
    "C23": ("injectivity of the lineage in each determining attribute", "all attributes that simulation or likelihood read", "needs pairs of contexts that differ in one attribute only"),
    "C24": ("the documented order of candidates", "all combinations of existing candidates and search bases", "tests have one installation"),
    "C25": ("replace_alias of the likelihood on every path to a component", "all call sites", "only template and simulation without aliases are tested"),
    "C26": ("prior + sum over likelihoods, once each", "any number of likelihoods and repeats; the sum also for given values (finite, -inf, nan)", "one likelihood in the tests"),
    "C27": ("configured minus read", "all operations of the table", "order of set, build and clear"),
    "C28": ("same selection for all series; same index for data, label and prior; nodes at their coordinates", "all chains and maps; each plotting method over a generic panel", "plot tests look for exceptions"),
    "C29": ("the union of what plugins, options and components declare in a generic world", "two plugins one of which is used twice, three options, stale contents, aliases that apply and that do not; the loops treat elements alike", "a name too many or too few shows only with other maps, aliases or after deducing again"),
    "C30": ("quantile functions: uniform between limits, cylinder, inverse of the cumulative integral", "12 grids of 3 to 9 points with uneven spacing for the integral, 20 to 30 points for each quantile function; formulas are exact in between", "a batch from a wrong spectrum has the right shape"),
    "C31": ("the defining construction of each distribution, in sa/specs/samplers.py", "40 points per formula; draws are uninterpreted functions of their kind and arguments, matched one to one", "a sample of the wrong distribution looks like a sample"),
    "C32": ("the law each output stands for, in sa/specs/physics.py; sums of complementary outputs", "40 points over the physical ranges for means and widths, 60 choices of inputs and draws for sums; away from the limits outputs are clipped to", "a misplaced factor only shifts a distribution"),
    "C33": ("transcriptions of the published parametrisations, in sa/specs/nest.py, in another form than the source", "40 points over the physical ranges, one in five at low energy and small recombination", "no reference values in the tests"),
}
EXTRA = {
    "C06": """Induction for the order.  The walk records a name's provider *before* it recurses into the provider's inputs (pre-order), so in the
recorded list every record of a consumer is followed by records of the providers of its inputs, made by that very visit.  The work sheet
is built by going through the list backwards and keeping the first occurrence met, i.e. the last record of each plugin.  Take a consumer c
and a provider p of one of its inputs: the last record of c is followed by a record of p, so the last record of p comes after the last
record of c, so backwards p comes before c.  This needs acyclicity only for termination.  The check extracts from the source whether the
record comes before or after the recursion, whether the list is reversed and which occurrence is kept; the correct combinations are
(before, reversed, first met), (after, forward, first met) and their equivalents, every other one has a counterexample graph of at most
four plugins.""",
    "C14": "`Signs` interprets numpy's elementwise operations on the five classes; a mask that is used as index is undone (`unmask`), because a sum over the selected bins hides what the unselected ones are (a seeded bug was missed before).",
    "C07": "The linear prover works on terms: `num <= trials` from a binomial draw, `clip(x, a, b)` between its limits, products of non-negative factors.  A violation is only reported with a witness: independent parameters and draws that reach the excess.",
}
SEEDED_NOTE = ""
