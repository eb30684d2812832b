"""What the evidence files say about how cases are made, and what is assumed"""

COMMON = [
    'NumPy, pandas, numba, NumExpr and Python behave as documented',
    'Hypothesis cases are a pure function of VERIF_SEED, the tier and the code; generated-input search shows presence, '
    'not absence, of violations outside of what was generated',
]

RULES = {
    'C01': 'Hypothesis generates a choice tree (1 to 9 nodes, depth up to 8, any order of insertion, logsum scales '
           'in (0, 1]; in the part wide up to some 300 choices), decision units (4 kinds of index), utilities per cell (incl. -inf, -999 and numbers which single precision cannot hold), precision, threads, '
           'scaling and the way utilities reach the model; the three results of run_stochastic are compared with a '
           'recursive pure-Python logit. Non-trivial: more than one node and a non-zero utility.',
}

ASSUMPTIONS = {
    'C01': ['Utilities are within +-500 after scaling (+-70 in single precision), or -999 or -inf'],
}

TECHNIQUE = {
    'C01': 'property-based testing: generated trees and utilities against a recursive reference logit',
}
RULES['C08'] = (
    'Hypothesis generates (1) frames with columns of 14 kinds and names, plus a source built from a grammar (arithmetic, '
    'unary minus, chained comparisons, and/or/not, where(), functions, text comparisons, None/nan, local names, redundant '
    'and minimal parentheses), evaluated row by row with Python eval() as oracle; (2) unsupported or malformed sources '
    'given to a frame; (3) sequences of good and refused expressions appended to a model. Non-trivial: the source uses a '
    'name and an operator or function; or a refusal was exercised. Further (4) results written into arrays of 5 types, with or '
    'without casting; (5) random trees of operators with minimal or full parentheses.')
ASSUMPTIONS['C08'] = ['Numbers are on a 1/8 grid so that comparisons cannot depend on rounding; int overflow, '
                      'negative powers of ints, boolean operators over numbers and non-ASCII text are left out']
TECHNIQUE['C08'] = 'grammar-based property testing, differential against Python eval() per row'
RULES['C06'] = (
    'Hypothesis generates a tree, decision units, up to 6 symbols (numbers, vectors, tables and matrices of either '
    'orientation, 9 data types, matrices with partial or reordered labels), up to 7 expressions (with dict literals, '
    "nested and '_' keys, '@' filters, conditions, functions; in double precision also numbers which single precision cannot hold; matrices with columns of several dtypes), the order of declaring, assigning and appending, threads, "
    'precision and scaling. The utility of every cell is computed by Python eval() of the same source, and checked through '
    'the logsum terms, logsums and probabilities of run_stochastic. The part large has up to 20000 units or 300 choices, whose '
    'utilities are computed by NumPy. Non-trivial: the run took place and the expressions '
    'use a symbol or dict literal.')
ASSUMPTIONS['C06'] = ['Utilities are observed through the logit results, whose formula is decided by C01',
                      'Models whose exponents exceed +-500 (+-70 in single precision) are left out']
TECHNIQUE['C06'] = 'model-based property testing: cell-by-cell reference evaluation with Python eval()'
RULES['C02'] = (
    'Hypothesis generates a tree, 1 to 150 (thorough 400) units of which up to three have utilities with NaN, no feasible '
    'alternative (-inf or far below the range of exp, in every cell, all top-level ones or all elemental ones), overflow, or '
    'an infeasible branch; threads, precision, scaling, draws and the way utilities reach the model. Oracle: '
    'UtilityBoundsError from stochastic and discrete runs, or, with the check off, zeros for the infeasible units and for '
    'the others the results (within 1e-11) of a model with that unit only. In the part large one unit is bad among up to 263000 (at the ends, the middle, next to powers of two). Non-trivial: some unit is not an ordinary one.')
ASSUMPTIONS['C02'] = ['Overflows are clear-cut (beyond twice the range of exp, or infinite)']
TECHNIQUE['C02'] = 'property-based testing with injected bad rows; differential against one-unit models'
RULES['C03'] = (
    'Hypothesis generates (1) probability vectors (zeros anywhere, exact and rounded sums) and draws (at, next to and '
    'between the cumulative probabilities, tiny, 1.0) for the search functions (as far as the code has them), whose oracle is a linear scan; (2) pairs of '
    'models with the same cumulative probability at a cut, which must agree for the same seed; (3) trees, utilities, seeds, '
    'threads and numbers of units and draws, of which the counts of every alternative (overall, per draw, per unit) and the '
    'coincidences of disjoint pairs of draws, units and both are compared with the reported probabilities by a Chernoff '
    'bound at exp(-30), and no two units or draws may repeat each other\'s sequence; (4) long sequences of equal units, draws or runs (of neighbouring seeds), whose circular autocorrelation at every lag must stay within 10 standard deviations, as must the dispersion of counts per block, unit and draw; successive runs with one RandomState object, or None, must not all be equal. Non-trivial: more than one alternative has a chance.')
ASSUMPTIONS['C03'] = ['Frequencies are resolved to about sqrt(60 p (1-p) / n) for n of 2400 to 9000 (thorough 54000) choices',
                      'The draws of a run depend on the seed and the numbers of units and draws only (part coherence)']
TECHNIQUE['C03'] = 'property-based testing: linear-scan oracle for searches, metamorphic and statistical oracles for runs'
RULES['C04'] = (
    'Hypothesis generates models (with all kinds of symbols and expressions, or with up to 1500 units), seeds, draws and '
    'pairs of thread counts. The same and a newly built equal model, integer and RandomState seeds, another global random '
    'state and a second process with another hash seed must give identical choices and logsums; np.random.get_state() must '
    'not change; a model with a permuted subset of the units must give the same probabilities, logsums and terms per unit '
    '(also for models of up to 20000 units or 300 choices, and units whose utilities are on far apart levels). '
    'Non-trivial: the model could be run (and has several units).')
ASSUMPTIONS['C04'] = ['Thread interleavings are those which happen to occur with 1 to 4 threads on this machine']
TECHNIQUE['C04'] = 'metamorphic property testing over equal models, thread counts, processes and sets of units'
RULES['C05'] = (
    'Hypothesis generates a tree, units (4 kinds of index), utilities with many ties and infeasible cells, seed, draws, name '
    'and one of seven ways to ask for a label form. The positional result of the seed is the reference: every other form '
    '(category, str, object; squeezed or not) must hold the label at that position, with the right type, shape, index, '
    'columns, names and logsums. One part has up to some 300 choices. '
    'Non-trivial: more than one alternative was chosen.')
TECHNIQUE['C05'] = 'differential property testing between the output forms of the same seeded run'
RULES['C07'] = (
    'Hypothesis generates a tree, units, matrices (both orientations, subsets and permutations of either axis, fill values, '
    'reindexing allowed or not), vectors, tables (mandatory attributes, links allowed or not) and partial-utility tables, '
    'interleaved with assignments of unsuitable data (permuted, subset, unknown, swapped or longer labels, wrong shape or '
    'type, missing attributes, linked). Oracle: cell-by-cell reference model for runs; unsuitable data must be refused, '
    'and later runs must be those without the attempt. Non-trivial: a run took place and data were moved or refused.')
ASSUMPTIONS['C07'] = ['Labels are unique; any exception counts as a refusal']
TECHNIQUE['C07'] = 'model-based property testing with injected unsuitable data'
RULES['C09'] = (
    'Hypothesis generates a model and a history of stochastic and discrete runs (whole model or a group), validations, debug '
    'runs, failing runs (NaN, infeasible, not ready, unknown group), copies, clearing the scope and assigning again, new '
    'values and partial utilities. Every run is compared with a reference model which has no hidden state, discrete runs with '
    'a new equal model; after every step deep snapshots of all data given to the model, and of frames linked to them, must '
    'be unchanged. Non-trivial: at least two runs succeeded.')
TECHNIQUE['C09'] = 'stateful model-based property testing with deep snapshots of the inputs'
RULES['C10'] = (
    'Hypothesis generates a model whose expressions are divided over up to three groups and the ungrouped ones (sharing '
    'symbols), and a history of pre-evaluations (dropping the group or not, cleaning the scope or not), dropped groups, '
    'partial-utility tables, new expressions, reassignments, copies, validations, and runs of the whole and of single '
    'groups. Oracle: the reference model which keeps the exact total of every cell, and the set of symbols still needed. '
    'The part large does this for up to 20000 units with NumPy as oracle. '
    'Non-trivial: a group exists, a run succeeded, and something was pre-evaluated, dropped, added or run singly.')
ASSUMPTIONS['C10'] = ['A group that is kept when pre-evaluated (drop_group=False) counts again, as documented']
TECHNIQUE['C10'] = 'stateful model-based property testing'
RULES['C11'] = (
    'Hypothesis generates a model and a history with full, partial (any of five flags) and subset copies (any mask) of it and '
    'of its copies, interleaved with pre-evaluations, dropped groups, partial tables, new expressions, reassignments, new '
    'decision units, cleared scopes and runs of any of them. Oracle: one reference model per real one, sharing nothing; '
    'the data given are snapshotted. The part large takes subsets of up to 20000 units. Non-trivial: at least two of the models were run.')
ASSUMPTIONS['C11'] = ['The tree is not changed after copying (nodes are documented to be shared)']
TECHNIQUE['C11'] = 'stateful model-based property testing over several models at once'
RULES['C12'] = (
    'Hypothesis generates the steps of building a model (choices one by one, so that nests have one child in between; units, '
    'declarations, assignments, expressions in groups or not) in any order with steps left out, then completes and breaks it '
    'again (new units, cleared scope, redeclared or undeclared symbols, new choices), with runs, validations (incl. partial '
    'ones) and pre-evaluations in between, and 25 kinds of illegal settings. Oracle: the reference model knows whether it is '
    'ready: then results must be right, otherwise ModelNotReadyError; illegal settings must be refused without any effect. '
    'Non-trivial: something was refused.')
ASSUMPTIONS['C12'] = ['Any exception counts as the rejection of an illegal setting']
TECHNIQUE['C12'] = 'stateful model-based property testing of incomplete models'
RULES['C13'] = (
    'Hypothesis generates sequences of up to 14 (thorough 25) additions of single choices at any depth, batches, replacements '
    'of choices at any level (with names that are prefixes of each other), changed scales and runs. After every step the '
    'choices, elemental choices, depth and every live node (name, full name, level, parent, children, scale, greatest level) '
    'are compared with a list of paths; runs with the reference logit and with a new model without the replaced parts. '
    'Non-trivial: more than two nodes and a run.')
TECHNIQUE['C13'] = 'stateful model-based property testing'
RULES['C14'] = (
    'Hypothesis generates 2 to 5 tables (0 to 6 rows, thorough 14; 16 kinds of value columns, some added after linking; '
    'plain or linked targets; 6 kinds of index; keys which look alike, such as 1 and "1", and missing ones) and links between them (1 to 3 key levels of 8 families with possibly '
    'different dtypes on both sides, columns or index or levels by name or number, missing keys on one side, computed at '
    'once or later, extra links in any direction), then reads columns through chains of 1 to 4 links by attribute or item, '
    'before and after compute_indexers(), and after values, columns or the order of rows of a target changed. Oracle: a naive left join over the generated key tuples, with the documented type '
    "defaults where nothing matches, the root's index and the target's dtype. The part large has tables of up to 5000 rows. Non-trivial: at least two target rows are hit.")
ASSUMPTIONS['C14'] = ['Missing keys occur on one side of a link only; what a key column mixing types is called (text or object) '
                      'is left open']
TECHNIQUE['C14'] = 'property-based testing: generated linked tables against a naive left join'
RULES['C15'] = (
    'Hypothesis generates linked tables as for C14 with a link that needs aggregation at the end of a chain of 0 to 2 others '
    '(duplicate, missing and unmatched keys, 1 to 3 levels, columns or index, computed early or late), then up to 6 '
    'reductions (all 13, with their keyword arguments and int_fill) of columns of 15 kinds or of generated expressions '
    '(which can use a link of the reduced table), again after values or the order of rows of the table changed. Oracle: the reduction in pure Python over the rows whose generated keys '
    'are equal. The part large has tables of up to 5000 rows. Non-trivial: two rows have different groups, one of them with several rows.')
ASSUMPTIONS['C15'] = ['Whether a reduction of matching rows without a value (e.g. std of one row) is missing or filled is left open',
                      'Sums and products stay below 2^53; quantiles of booleans do not exist in pandas']
TECHNIQUE['C15'] = 'property-based testing: generated links and reductions against pure-Python reductions of the matching rows'
RULES['C16'] = (
    'Hypothesis generates a frame of 1 to 8 rows (thorough 16) with 1 to 4 links (aggregated or not, chained, by columns or '
    'index, computed early or late) and a sequence of up to 6 (thorough 10) of 39 row, label and column operations (masks, labels, '
    'positions, slices, sorting, sampling, dropping, groups, copies, in-place variants, columns). The same operations are '
    'done on a plain DataFrame holding row numbers. Oracle: data equal to the plain ones; every lookup of every frame made '
    'on the way, at the end and after compute_indexers(), equals the original lookup at these row numbers; links vanish only '
    'if their keys do; rows with new labels have no link and get the fill. The part large has tables of up to 5000 rows. Non-trivial: the final frame has several different rows, not the original ones in order, and links.')
ASSUMPTIONS['C16'] = ['Links whose keys come from an index which set_index() replaced are not judged',
                      'concat, merge and groupby head/filter may drop links']
TECHNIQUE['C16'] = 'stateful property-based testing: operation sequences against row numbers carried by a plain DataFrame'
RULES['C17'] = (
    'Hypothesis generates linked tables with columns of 17 kinds, and a program of set/reset/temporary fill calls (on the '
    'class, on instances; blocks nested up to 3 deep, left normally or by an exception), column fills, refused calls and '
    'creation of plain or linked targets, with fill values which fit the columns or not. After each part, every column is '
    'looked up through every link and chain and compared with a naive join using the fill of a dictionary model of the '
    'settings. Each case runs in a forked process, so that no case sees the class-wide settings of '
    'another; at its end the class is reset, and new frames must use the documented defaults. Non-trivial: some missing '
    'row was filled by something else than the documented default.')
ASSUMPTIONS['C17'] = ['Nothing is set or reset inside of a block for what the block itself set temporarily',
                      'Whether frames derived from a frame (slices, copies) take over its settings is not judged']
TECHNIQUE['C17'] = 'model-based property testing: generated programs of fill settings against a dictionary model'
RULES['C18'] = (
    'Hypothesis generates (1) histories of linking (keys of 1 to 3 levels of 8 families with duplicates on any side; columns, '
    'index or levels), re-linking, lookups, computing, added columns, and 18 kinds of bad specifications: the return value '
    'must tell whether target keys repeat, many-to-many and bad ones must be refused, and after each step link_summary(), '
    'get_link_target() and every lookup must be those of the links made so far; (2) tables with the keys in columns and index '
    'levels at the same time, linked by up to 8 equivalent specifications whose lookups must all equal the naive join. '
    'Non-trivial: (1) several links or a refusal next to a link; (2) different keywords and several values.')
ASSUMPTIONS['C18'] = ['Any exception counts as a refusal', 'Missing keys occur on one side of a link, and never repeat where '
                      'uniqueness is judged']
TECHNIQUE['C18'] = 'property-based testing: generated key distributions and specifications against counting and a naive join'
RULES['C19'] = (
    'Hypothesis generates schemas of 2 to 5 linked tables (chains, branches and cycles, aggregating and plain links, link '
    'names which are prefixes of columns and of each other) and up to 5 linked terms (attributes at the end of chains of up '
    'to 3 links; reductions of nothing, of columns and of expressions with linked terms inside, at the end of chains), which '
    'are written into (1) expressions evaluated on the frame, (2) the values, index, columns and expressions of pivot '
    'tables, (3) utility expressions of a choice model with tables by unit or by choice, (4) crowds of up to 26 terms in one '
    'expression. Oracle: the same source on a frame '
    'with the terms as plain columns (which are compared with a naive join), and Python eval() per row. Non-trivial: a '
    'linked term is used and the result is not constant (1), or a linked term is used (2, 3).')
ASSUMPTIONS['C19'] = ['Values are small or on a 1/4 grid, so that comparisons cannot depend on rounding',
                      'Reductions of plain columns without linked terms are decided by C15']
TECHNIQUE['C19'] = 'grammar-based metamorphic testing: linked terms against materialised columns'
RULES['C20'] = (
    'Hypothesis generates (1) constructor and reader calls (dicts, arrays, records, frames, text, CSV, JSON, other '
    'sources), (2) tables of 1 to 3 frames with columns of several kinds, linked or not, with several kinds of index, and '
    'sequences of up to 6 of some 250 DataFrame operations with generated arguments. Each operation is applied to the linked frame '
    'and to a plain DataFrame with the same data: both must give equal values, labels and dtypes, or both be refused, and '
    'leave equal frames behind; a linked frame which results must still look up what the rows looked up. Non-trivial: the '
    'frame has links and more than one row.')
ASSUMPTIONS['C20'] = ['pandas itself, on a plain DataFrame, is the oracle',
                      'Results made by joining, exploding or transposing, and unpickled frames, may drop links']
TECHNIQUE['C20'] = 'differential stateful testing: generated operation sequences on a linked and a plain frame in step'
RULES['C21'] = (
    'Hypothesis generates histories of up to 14 operations on several expression containers and models (appending with or '
    'without groups, sources with syntax errors or an inconsistent use of a name, setting and dropping groups, clearing, copying, '
    'adding containers, copying models, running them). A dictionary of lists is the model: after each operation, iteration, '
    'length, groups and symbols of every container must be those of the model, and models run must return the utilities of exactly '
    'these expressions. Non-trivial: at least two operations changed a container.')
ASSUMPTIONS['C21'] = ['Expressions used are simple enough to be evaluated by Python eval()',
                      'Whether a sum refuses a name used inconsistently by its operands is not judged']
TECHNIQUE['C21'] = 'model-based stateful testing: histories of container operations against a dictionary model'
RULES['C22'] = (
    'Hypothesis generates models (as in C06 and C09: tables, symbols, expressions in groups, trees), a decision unit to debug (or none '
    'in the model) and sequences of runs, pre-evaluations, subset copies and reassignments. Every debug table must list the '
    'evaluated expressions in order with the running utilities of the reference evaluator; results must equal those of an equal model '
    'without debugging or logging; a logger must have been told each expression. Non-trivial: a debug table was compared.')
ASSUMPTIONS['C22'] = ['Labels of decision units are unique where one is debugged']
TECHNIQUE['C22'] = 'property-based testing: debug tables against a reference evaluator, and runs with and without debugging'
