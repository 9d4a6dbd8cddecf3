"""The properties: single source for properties.jsonl and MANIFEST.json
(tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism=(),
         observe=(), technique='', note=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=list(over), text=' '.join(text.split()),
                  why=' '.join(why.split()), files=list(files),
                  mechanism=list(mechanism), observe=list(observe),
                  technique=technique, note=' '.join(note.split())))


COB = 'concept_formation/cobweb.py'
C3 = 'concept_formation/cobweb3.py'
CV = 'concept_formation/continuous_value.py'
TR = 'concept_formation/trestle.py'
SM = 'concept_formation/structure_mapper.py'
PP = 'concept_formation/preprocessor.py'
CL = 'concept_formation/cluster.py'
EV = 'concept_formation/evaluation.py'
UT = 'concept_formation/utils.py'
VZ = 'concept_formation/visualize.py'
DU = 'concept_formation/dummy.py'
DS = 'concept_formation/datasets.py'

TIES = ('explicit-state model checking of the real code (all histories x all '
        'tie-breaks up to a bound)')
REFN = ('explicit-state model checking: refinement of the real code against '
        'an executable reference model on every transition')
ENUM = ('bounded exhaustive model checking of the real code against a '
        'reference oracle')

prop('C01', 'A learned hierarchy conserves exactly the instances it was given',
     """After any sequence of fits into a Cobweb, Cobweb/3 or Trestle tree, the
     root concept's count and attribute-value frequencies are exactly those of
     the multiset of instances fitted so far (for numeric attributes: their
     number, mean and spread), hidden attributes included; for Trestle up to
     the renaming of object variables. Every inner concept's table is exactly
     the sum of its children's tables, so no instance is lost, duplicated or
     attributed to two siblings.""",
     ['histories', 'inputs'],
     """All fit histories over small instance alphabets (nominal, numeric,
     mixed, hidden, missing, structured), under every resolution of the random
     tie-breaks, plus long periodic histories.""",
     """verify_counts in the tests looks at one seeded 40-instance run with two
     always-present attributes; it compares only counts (never means or
     spreads) and never reaches missing/hidden attributes or other
     tie-breaks.""",
     [COB, C3, CV, TR], [{'name': 'increment/update counts, merge, split, fringe split', 'where': COB}],
     ['root and inner concept tables after every fit'], TIES,
     """Exhaustive within the stated alphabets, depth and tie-break bound;
     beyond that only the long periodic histories are covered.""")

prop('C02', 'The concept hierarchy is always a well-formed tree',
     """After any sequence of fits, parent and child links agree, exactly one
     root has no parent, no concept appears twice, every concept refers to its
     own tree, concept names are unique, and every non-leaf concept has at
     least two children. Each leaf holds only instances that are identical on
     all non-hidden attributes, and the concept returned by a fit is a leaf of
     that tree containing the fitted instance.""",
     ['histories', 'inputs'],
     """All fit histories over small alphabets under every tie-break, for all
     three learners, plus long periodic histories.""",
     """No test looks at links, leaf purity, arity or the returned concept.""",
     [COB, C3, TR], [{'name': 'fringe split, merge, split pointer updates', 'where': COB}],
     ['tree links, returned concept'], TIES,
     'Exhaustive within the stated alphabets, depth and tie-break bound.')

prop('C03', 'Every fit commits to the operation with the highest category utility',
     """When an instance is fitted into a Cobweb or Cobweb/3 tree (with or
     without scaling), at every concept it passes the tree performs whichever
     of these has the highest category utility given current knowledge: adding
     it to the best child, making a new child, merging the two best children
     (only when there are more than two), or splitting the best child. On
     reaching a leaf the instance joins it if it matches exactly on all
     non-hidden attributes, and otherwise leaf and instance become siblings
     under a new concept. Nothing but random tie-breaking may alter the
     outcome.""",
     ['histories', 'inputs', 'configurations'],
     """All fit histories over small nominal / numeric / mixed alphabets, all
     tie-breaks, scaling on and off; each transition must be one the reference
     algorithm allows.""",
     """Tests never look at the shape of a learned tree, only at count sums of
     one random run.""",
     [COB, C3], [{'name': 'cobweb loop, best operation', 'where': COB}],
     ['tree shape before and after each fit'], REFN,
     """Refinement against an independent re-implementation working on
     multisets of instances; ties are taken within 1e-9.""")

prop('C04', 'Reported category utilities equal those of really doing the operation',
     """For every learned concept with children and every instance, the
     category utility reported for inserting the instance into a child, giving
     it a new child, merging two children, splitting a child, or (at a leaf) a
     fringe split equals the category utility the concept has once that
     operation is really performed, and the plain category utility equals its
     documented formula over the instances below the concept. The reported two
     best children and best operation are the ones maximising these values,
     and expected correct guesses always lie between 0 and 1.""",
     ['histories', 'inputs'],
     """Every concept of every tree reachable by bounded histories, every probe
     instance, every pair of children; nominal, numeric and mixed, scaling on
     and off.""",
     """No test calls any category-utility function.""",
     [COB, C3], [{'name': 'cu_for_* / relative CU', 'where': COB}],
     ['return values of the utility functions'], REFN,
     'Reference formula is computed independently from the instances below each concept.')

prop('C05', 'Queries never change what a tree has learned',
     """Categorizing, inferring missing values, predicting, asking for
     probabilities, log-likelihoods or (hypothetical) category utilities,
     printing, exporting and scoring leave every concept, count, numeric
     summary, scale and link of the tree as they were, and leave the result of
     later fits as it would have been. Neither queries nor fits modify the
     instance they are given.""",
     ['histories', 'inputs'],
     """All interleavings of one query kind into bounded fit histories, for all
     three learners and the dummy baseline.""",
     """No test compares a tree before and after a query.""",
     [COB, C3, TR, DU, EV], [{'name': 'shallow copies in hypothetical evaluation', 'where': COB}],
     ['complete dump of the tree before/after each call'], TIES,
     'Complete structural dump (identity, links, tables, scales) compared around every call.')

prop('C06', 'Categorization follows the best-matching child down to a leaf',
     """Categorizing an instance in a Cobweb, Cobweb/3 or Trestle tree always
     returns a leaf concept of that very tree; in Cobweb and Cobweb/3 that leaf
     is reached from the root by moving, at every concept, to a child into
     which inserting the instance gives the highest category utility. On an
     untrained tree the empty root is returned, and empty or
     partially-specified instances, unseen attributes and unseen values are all
     accepted.""",
     ['histories', 'inputs'],
     """All trees reachable by bounded histories x all probe instances x all
     tie-breaks.""",
     """The only test categorizes {} in one two-leaf tree and checks nothing
     about the answer.""",
     [COB, C3, TR], [{'name': 'categorize loop', 'where': COB}],
     ['returned concept'], REFN, 'Set of admissible leaves computed by the reference model (ties within 1e-9).')

prop('C07', 'Hidden attributes never influence concept formation',
     """Attributes whose first element is an underscore (constants, underscore
     tuples, and in Trestle underscore attributes inside components as well as
     everything inside a component whose own name starts with an underscore)
     have no effect on the shape of the hierarchy, on where an instance is
     fitted or categorized, on exact matching or on category utility and
     expected correct guesses. They are nevertheless counted in every concept
     the instance passes through, so their values can be read back.""",
     ['histories', 'inputs'],
     """All bounded histories over alphabets whose instances differ only in, or
     additionally in, hidden attributes; each transition must be allowed by the
     reference model run on the instances with hidden attributes removed.""",
     """No test uses a hidden attribute.""",
     [COB, C3, TR, PP], [{'name': 'attrs() filter', 'where': COB}],
     ['tree shape, category utility, tables'], REFN,
     'Product construction: real tree on full instances vs reference on stripped instances.')

prop('C08', 'Concept probabilities form a proper distribution',
     """For every concept and attribute, the weighted values (including the
     missing option) are non-negative, sum to 1 and equal the relative
     frequencies of the instances under the concept; the probability of a
     nominal value or of missing agrees with them, and unseen values have
     probability 0 while never-seen attributes are missing with probability 1.
     The probability of a numeric value follows the documented noisy normal
     density scaled by the share of instances having the attribute, and
     therefore never exceeds that share.""",
     ['histories', 'inputs'],
     """Every concept of every reachable tree x every attribute x a grid of
     values; nominal and numeric, scaling on/off, also the empty concept.""",
     """No test calls probability or the weighted values.""",
     [COB, C3], [{'name': 'probability, weighted values', 'where': C3}],
     ['return values'], ENUM, 'Oracle computed from the instances below the concept.')

prop('C09', 'Inferred values come from the matching concept and keep what was given',
     """Inferring missing values returns a new instance in which every given
     attribute keeps its value and every added attribute is one known to the
     matching leaf concept, with a value of maximal weight there (most likely)
     or of positive weight there (sampled); numeric attributes get the
     concept's mean, or a draw around it. With missing not allowed every
     attribute of that concept is filled in; with it allowed an attribute is
     left out only when missing is itself such a choice. Predictions asked of
     any single concept follow the same rule, and for structured instances
     given objects keep their names and everything said about them.""",
     ['histories', 'inputs', 'configurations'],
     """All reachable trees x partial instances x both choice functions x both
     missing policies x every outcome of the random draw (ties, and a grid of
     draws).""",
     """infer_missing and predict are untested (the docstring says so).""",
     [COB, C3, TR, UT], [{'name': 'infer_missing, predict', 'where': COB}],
     ['returned instance'], REFN, 'Admissible leaves and admissible values come from the reference model.')

prop('C10', 'Numeric summaries equal the statistics of the samples',
     """A numeric summary built by any sequence of single updates, batch
     updates, copies and combinations has the count, mean, biased and unbiased
     standard deviation of the multiset of samples it has seen, whatever the
     order and grouping (including empty parts and values far from zero). The
     unbiased estimate applies the standard small-sample correction below 30
     samples and is 0 below 2; combining or copying never alters the other
     summary.""",
     ['histories', 'inputs'],
     """All sample sequences over a value alphabet x all binary combination
     trees up to a bound; all counts 0..70 and long runs for the correction.""",
     """Tests draw random normal samples once and most assert a one-sided
     'difference <= tolerance', so a too-small value always passes.""",
     [CV, UT], [{'name': 'update / combine', 'where': CV}],
     ['mean, std, count'], ENUM, 'Exact rational statistics as oracle.')

prop('C11', 'With scaling on, units and origin of a numeric attribute do not matter',
     """With scaling enabled, replacing every value of a numeric attribute by
     k*value + c (k > 0) leaves the shape of the learned Cobweb/3 hierarchy,
     category utilities, the categorization of correspondingly transformed
     instances and the probability of correspondingly transformed values
     unchanged (for queries: once the tree has seen different values of the
     attribute), and transforms predicted means accordingly. With scaling
     disabled no rescaling is applied.""",
     ['histories', 'inputs', 'configurations'],
     """All bounded numeric / mixed histories x a set of affine maps (different
     maps on different attributes, plain and relational attribute names) x all
     tie-breaks x scaling settings.""",
     """No test varies or inspects scaling.""",
     [C3, CV], [{'name': 'attr_scales', 'where': C3}],
     ['tree shape, category utility, probability'], REFN,
     'Each transition on transformed data must be allowed by the reference on untransformed data.')

prop('C12', 'The three learners agree on the data they have in common',
     """On purely nominal data Cobweb, Cobweb/3 and Trestle, and on flat
     constant-attribute numeric data Cobweb/3 and Trestle, behave identically
     up to random tie-breaking: the hierarchies they can learn, the leaves they
     categorize to, category utilities, probabilities, log-likelihoods and
     predictions are the same.""",
     ['histories', 'inputs'],
     """All bounded histories over shared alphabets, learners run in lockstep
     with all tie-breaks; every concept pair compared on every observable.""",
     """No test compares the learners.""",
     [COB, C3, TR], [{'name': 'overridden node methods', 'where': C3}],
     ['tree shape and node outputs'], REFN,
     'Common reference model plus concept-by-concept comparison of outputs.')

prop('C13', 'Structure mapping is a reversible renaming, never worse than its start',
     """Mapping an instance onto a concept renames object variables one-to-one,
     each either to an object of the concept or to itself, and touches nothing
     else: constants, values and the number of attributes are preserved, and
     undoing the mapping restores the instance exactly. The mapping is found by
     improving a start: the initial mapping given by the caller or, by default,
     the assignment that is best when objects are matched one at a time. The
     result is never worse, in expected correct guesses of the concept after
     adding the instance, than the start or anything that differs from the
     start by exchanging the assignments of two objects or moving one object to
     an unused object of the concept; and the search goes on until no such step
     improves the mapping found (or an equally good one a step before it).""",
     ['inputs', 'histories'],
     """All pairs (concept learned from <=2-3 structured instances, structured
     instance) over a small grammar of objects, attributes and relations.""",
     """test_structure_mapper.py contains no test function; doctests show a
     few renamings only.""",
     [SM, PP], [{'name': 'flat_match, rename', 'where': SM}],
     ['transform / undo_transform / get_mapping'], ENUM,
     'All starts and their neighbourhoods are enumerated completely with an independent cost.')

prop('C14', 'In Trestle, object names carry no information',
     """Renaming the object variables of an instance, or reordering its
     attributes, never changes whether Trestle recognises it: a renamed copy of
     the only instance fitted so far (with at most two objects, or with objects
     that differ in their own values) is always added to the very same leaf
     concept, renaming an instance consistently never changes the count or the
     values stored, and names chosen by the caller never collide with names
     already used in the tree. Inferred instances come back under the caller's
     own object names.""",
     ['histories', 'inputs'],
     """All structured instances of a small grammar x all renamings over a name
     pool (including names the system itself generates).""",
     """No test fits structured data.""",
     [TR, SM, PP], [{'name': 'name standardizer + structure mapper', 'where': TR}],
     ['leaf returned, tree size, inferred instance'], ENUM,
     'Instances with up to 3 objects exhaustively, listed shapes with up to 7.')

prop('C15', 'Structural preprocessing is lossless and pure',
     """Standardising names, flattening components, lifting sub-components and
     tuplizing string relations, alone or chained in the pipeline Trestle uses,
     never modify their input, and undoing the transformation gives back an
     instance equal to the original (every object has one place, and relations
     refer to nested objects by their path).
     After standardising, distinct object variables have distinct fresh names,
     used consistently in components and relations; after flattening no
     component values remain; after lifting every nested object is tied to its
     container by a has-component relation.""",
     ['inputs'],
     """All instances of a grammar (nominal, numeric, variable, hidden
     attributes, components nested to depth 3, relations over them) up to a
     size bound.""",
     """Doctests show one or two instances per preprocessor; variables with
     plain values and chained undo are never exercised.""",
     [PP], [{'name': 'transform / undo_transform pairs', 'where': PP}],
     ['transformed and restored instances'], ENUM, 'Exhaustive over the stated grammar.')

prop('C16', 'List preprocessing is lossless',
     """Processing the lists of an instance (at any depth, with elements that are values, components or further lists) leaves no list
     behind, keeps all other attributes, and undoing it restores the original
     instance with every list in its original order. Names introduced for
     elements never overwrite attributes of the instance, and the input is not
     modified. When undoing, order relations that form a single chain become a
     list; relations that do not determine one total order are left in place
     instead of failing.""",
     ['inputs'],
     """All instances with lists of a grammar up to a size bound; all subsets of
     order relations over small element sets for the undo direction.""",
     """Three doctest instances; partial orders and name clashes never
     exercised.""",
     [PP], [{'name': 'ExtractListElements, ListsToRelations', 'where': PP}],
     ['transformed and restored instances'], ENUM, 'Exhaustive over the stated grammar.')

prop('C17', 'Type-converting preprocessors convert exactly what they should',
     """Numeric-to-nominal, nominal-to-numeric, object variablizing and
     sanitizing change exactly the attributes they target, at every nesting
     level, and keep every other attribute and value; they never modify their
     input and their undo returns an equal copy. Nominal-to-numeric applies the
     chosen policy (fail, drop, zero) to exactly the values that do not parse;
     variablized names are replaced consistently in relations; a sanitized instance (non-empty attribute
     names, values other than None) is always accepted by the learner it was
     sanitized for.""",
     ['inputs', 'configurations'],
     """All instances of a grammar x all target subsets x all policies /
     learner names.""",
     """One doctest instance per preprocessor.""",
     [PP], [{'name': 'one-way preprocessors', 'where': PP}],
     ['transformed instances; acceptance by the learners'], ENUM, 'Exhaustive over the stated grammar.')

prop('C18', 'Flat clusterings are nested partitions read off the hierarchy',
     """Every clustering assigns each instance, in order, the name of a concept
     that contains it; the first is the children of the root, and each further
     split replaces one cluster by its children, namely the one that optimises
     the heuristic, so later clusterings refine earlier ones. All clusterings
     between the requested minimum and maximum number of splits are produced
     (stopping when nothing can be split); a k-clustering is the last of them
     with at most k clusters (the root alone if even the first has more).
     Depth labels run from the root to the leaves, and the caller's tree is
     left unchanged except that depth labels may fit the instances.""",
     ['histories', 'inputs', 'configurations'],
     """All instance lists over small alphabets x pre-trained or empty trees x
     fit/categorize mode x split ranges x k x heuristics x tie-breaks (deviation
     bound).""",
     """The cluster module has no tests at all.""",
     [CL], [{'name': 'cluster_iter', 'where': CL}],
     ['label lists; tree dump before/after'], ENUM, 'Oracle re-derives every clustering from the hierarchy itself.')

prop('C19', 'Split search returns the clustering that minimises the heuristic',
     """Searching over splits returns, among the clusterings between the
     minimum and maximum number of splits, one with the lowest heuristic value
     (as labels or as concepts; the root when no value is finite), whichever of
     the four heuristics is used, by name in any case or by function. The
     heuristic values themselves are the negated category utility of the
     clustering over the leaves of the clustered instances and the documented
     information criteria (AIC, BIC, AICc) computed from cluster
     log-likelihoods and the number of parameters (one per value of each
     visible attribute of each cluster, two for a numeric one).""",
     ['histories', 'inputs', 'configurations'],
     """All instance lists over small alphabets x heuristics x split ranges.""",
     """No tests for the cluster module.""",
     [CL, COB, C3], [{'name': 'cluster_split_search, CU/AIC/BIC/AICc', 'where': CL}],
     ['returned clustering, heuristic values'], ENUM, 'Heuristics recomputed from the instances in each cluster.')

prop('C20', 'Incremental evaluation always tests before it trains',
     """Each run of an incremental evaluation starts from a cleared tree, and
     each instance is scored against a tree that has been fitted with exactly
     the earlier instances of that run; the result has one row per run and one
     score per evaluated instance, in the order of evaluation; after the last
     run the tree holds exactly that run's instances. The scoring functions
     withhold the target attribute when categorizing; the scores are
     the probability of the true value (or of missing) and the signed,
     absolute and squared difference between true and predicted value at the
     categorized concept, and scoring changes neither tree nor instance.
     Targets a score is not defined for are refused as documented.""",
     ['histories', 'inputs', 'configurations'],
     """All instance lists over small alphabets x run lengths x runs x shuffle
     outcomes x scoring functions.""",
     """The evaluation module has no tests.""",
     [EV], [{'name': 'incremental_evaluation', 'where': EV}],
     ['spied score calls, returned table'], ENUM, 'Spy scoring function sees the live tree.')

prop('C21', 'Invalid instances are rejected and leave no trace',
     """An instance with an attribute name that is not hashable and indexable,
     a value that is not hashable, or (Cobweb, Cobweb/3) a value of None, is
     rejected with a ValueError by fitting and categorizing (and by inference),
     wherever in the instance the bad entry sits, at any nesting depth or
     inside a relation for Trestle. The tree is then exactly as before the call
     and later fits behave as if the call had never happened.""",
     ['inputs', 'fault_sequences', 'histories'],
     """Every kind of bad entry x every position in the instance x every entry
     point x every reachable small tree, then every continuation.""",
     """Tests call the private check directly with four instances, never
     through fitting, and never look at the tree afterwards.""",
     [COB, C3, TR], [{'name': 'sanity check before fitting', 'where': COB}],
     ['exception type; tree dump before/after'], 'fault enumeration by bounded exhaustive model checking', 'All fault kinds and positions.')

prop('C22', 'Batch fitting and clearing behave like their incremental meaning',
     """Fitting a collection fits each of its instances exactly once per
     iteration, in the given order in the first pass when randomisation of the
     first pass is off, without reordering or modifying the caller's list, for
     any iterable and any number of iterations. A cleared tree is
     indistinguishable from a newly constructed one with the same settings,
     whatever it had learned, and keeps its settings.""",
     ['histories', 'inputs', 'configurations'],
     """All small collections x iteration counts x first-pass modes x all
     shuffle outcomes; all histories before and after a clear.""",
     """test_fit only checks that nothing raises; test_clear looks at one
     count.""",
     [COB, C3, TR], [{'name': 'fit, clear', 'where': COB}],
     ['order of incremental fits, tree after clear'], TIES, 'All permutations the shuffle can produce are enumerated.')

prop('C23', 'Random choices respect their weights',
     """A weighted choice returns each option with frequency proportional to
     its weight, never returns an option of weight zero, and succeeds for every
     possible draw including the extremes. The most likely choice returns an
     option of maximal weight, and every tied option can be returned; negative
     weights and empty lists are rejected with a ValueError.""",
     ['inputs', 'schedules'],
     """All weight vectors up to a bound x the complete grid of draws.""",
     """Tests check a > b > 0 for one vector.""",
     [UT], [{'name': 'weighted_choice', 'where': UT}],
     ['returned option for every draw'], ENUM, 'Randomness is replaced by complete enumeration of draws.')

prop('C24', 'Exported trees mirror the learned hierarchy',
     """The JSON form of a tree contains every concept exactly once, in its
     place, with its name, size and all its value counts (mean, deviation and
     number for numeric values; values with distinct string forms), and is
     serialisable; number of concepts, depth and ancestry agree with the hierarchy; the
     printed form shows every concept's table, one line per concept, indented
     by depth. The visualizations write exactly this structure to the
     destination folder: the plain one completely, the leaf-trimming one
     without the lowest levels, and the cluster one cut below the given
     clusters, whether these are given as labels or as concepts.""",
     ['histories', 'inputs', 'configurations'],
     """All reachable trees x cuts x cluster sets.""",
     """The visualize module and JSON export have no tests.""",
     [VZ, COB, C3], [{'name': 'output_json, _trim_*', 'where': VZ}],
     ['returned JSON, written output.js'], ENUM, 'Files are written to a scratch directory and the browser call is stubbed.')

prop('C25', 'The dummy baseline keeps one concept that summarises everything',
     """After any history, the dummy tree consists of exactly its root, whose
     counts are those of all instances fitted (up to object renaming when
     mapping is requested); fitting and categorizing always return that root,
     and its probabilities, predictions and inferred values are the overall
     frequencies and means. It accepts everything the structured learner
     accepts, including numeric and component values, and inference keeps what
     was given.""",
     ['histories', 'inputs'],
     """All bounded histories x probe instances x mapping on/off.""",
     """The dummy module has no tests.""",
     [DU], [{'name': 'DummyTree', 'where': DU}],
     ['root table, probabilities'], ENUM, 'Oracle is the multiset of instances.')

prop('C26', 'Datasets load completely, in order, and truncated on request',
     """Every dataset loader returns, for a requested number n, exactly the
     first n instances of the full dataset (all of them if there are fewer),
     as fresh objects on every call, and every instance is acceptable to the
     learner the dataset is meant for. Generated quadruped data has exactly the
     requested size and contains the four animals' part structure.""",
     ['inputs'],
     """All loaders x all n from 0 up to beyond the dataset size (bounded), and
     repeated calls.""",
     """Tests only look at the first instance of n=1.""",
     [DS], [{'name': '_load_json', 'where': DS}],
     ['returned lists'], ENUM, 'Complete enumeration of loaders and of n within the bound.')

prop('C27', 'Object names in relations are found and replaced consistently',
     """For every attribute (constant, variable or relation nested to any
     depth) the object variables reported are exactly the names starting with a
     question mark that occur in it, and those of an instance or concept table
     are the union over its attributes; a name is contained in an attribute
     exactly when it is the attribute or one of its parts at any depth.
     Renaming or binding with a mapping replaces every mapped part and nothing
     else, all at once (so exchanging names works), leaves its inputs alone,
     and renaming one-to-one to unused names is undone by the reverse mapping.
     An instance attribute partially matches a concept attribute exactly when
     they have the same shape and constants, mapped variables meet their
     images and unmapped variables meet variables.""",
     ['inputs'],
     """All attributes of a grammar (arity up to 3, nesting, repeated names,
     long and wide relations) x mappings (partial, cyclic, whole sub-relations)
     x candidate concept attributes.""",
     """The doctests show about a dozen attributes; structure mapping relies on
     these functions for every relation.""",
     [SM, PP], [{'name': 'rename_flat, bind_flat_attr, rename_relation, get_component_names', 'where': SM}],
     ['returned names, attributes, instances'], ENUM, 'Exhaustive over the stated grammar.')

prop('C28', 'Trees share nothing with each other or with the caller',
     """What a tree learns and answers depends only on the calls made on that
     tree: under any interleaving of fits, batch fits, queries and clears on
     several trees, of any kinds and settings, each behaves as if it were used
     alone. A deep copy of a tree, or one that was pickled and restored (also in another process), is a
     well-formed tree with the same content, shares no concept with the
     original, and from then on both develop independently and exactly as the
     original would have. Fitting, querying and clustering never change the
     instances they are given, and changing an instance afterwards, or
     anything a query returned (inferred instances, JSON, weighted values),
     never changes the tree.""",
     ['schedules', 'histories'],
     """All interleavings of bounded histories on two trees (all pairs of
     learner kinds and settings of a list), many trees one after the other,
     copies after every bounded history with several continuations, and
     changes to every argument and result.""",
     """The tests use one tree at a time; state shared through class
     attributes, module-level caches, default arguments or aliased containers
     only shows when trees are used side by side.""",
     [COB, C3, TR, DU, CV], [{'name': 'tree and concept state', 'where': COB}],
     ['tables, answers and links of every tree'], TIES,
     """All 20 (thorough: 35) interleavings of each pair of histories; default
     tie-breaking, contents compared up to object names.""")

prop('C29', 'Trestle learns the aligned instance exactly as Cobweb/3 would',
     """When a structured instance is fitted into a Trestle tree, the instance
     in flat form, with its objects aligned one-to-one with those of the root
     concept by structure mapping (objects without counterpart get new names),
     is what the tree learns, and the hierarchy changes exactly as Cobweb/3
     would change it for that aligned instance: at every concept the operation
     of highest category utility, at a leaf an exact match or a fringe split.
     The alignment is one that structure mapping with the root could have
     found: no single exchange or move improves it (or an equally good one a
     step before), and it is never worse than the one-at-a-time start.
     Categorizing reaches a leaf that Cobweb/3's best-child descent reaches
     for such an alignment.""",
     ['histories', 'inputs'],
     """All fit histories over structured alphabets (objects, relations,
     nesting, numbers, hidden parts, constants only) under every tie-break and
     several scaling settings, long histories with up to 5 objects and with
     the structured datasets, and all probes in every reachable tree.""",
     """The Trestle tests check that a few instances can be fitted; which
     concept they end up in, and under which alignment, is never compared with
     anything.""",
     [TR, SM, C3], [{'name': 'trestle', 'where': TR}, {'name': 'flat_match', 'where': SM}],
     ['root table change, hierarchy, returned leaf'], REFN,
     """The aligned instance is read off the change of the root's table;
     starts are compared completely up to 3 objects against 5.""")
