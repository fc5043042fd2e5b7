import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
core,model,api,ldf='cheval/core.py','cheval/model.py','cheval/api.py','cheval/ldf/api.py'
p('C01','Multinomial logit probabilities are the logit distribution, row by row',
 'For a model without nests, a stochastic run returns for every decision unit probabilities P_i = exp(u_i) / sum_j exp(u_j) that are non-negative and sum to 1, alternatives with utility -inf getting exactly 0. The accompanying top-level logsum term of the unit is sum_j exp(u_j) and the per-choice term is exp(u_i). Each row of the result depends only on its own row of utilities.',
 ['inputs'],'every utility table of finite or -inf cells, every number of alternatives and rows','tests use one fixed 8-vector and one random 5x6 table, all finite',
 [core,model],[('multinomial_probabilities',core),('worker_multinomial_probabilities',core),('ChoiceModel.run_stochastic',model)],obs=['ChoiceModel.run_stochastic result triple','worker_multinomial_probabilities'])
p('C02','Nested logit probabilities equal the recursive nested logit formula',
 'For a nested model, the probability of each elemental alternative is the product along its path of exp-utility over the exp-sum of its sibling group, where a nest contributes exp((V + s*ln(sum over children))/s_parent), s being logsum scales and the division by the parent scale applied only when utilities are scaled. Nest nodes themselves get no probability, elemental probabilities sum to 1 whenever some alternative is feasible, and a nest whose alternatives are all -inf gets 0 without disturbing the others. The top-level logsum term is the exp-sum over the root group, the per-node term is the exp value above.',
 ['inputs','configurations'],'every tree shape, logsum scale in (0,1], utilities finite or -inf, scaling on or off','tests use one fixed 3-level tree with fixed scales, scaling on, and finite utilities',
 [core,model],[('nested_probabilities',core),('worker_nested_probabilities',core),('ChoiceModel._flatten',model)],obs=['ChoiceModel.run_stochastic result triple'])
p('C03','Discrete sampling is inverse-CDF and never draws a zero-probability choice',
 'Given a uniform draw r in (0,1] (never smaller than the smallest normal double; 0 counts as that number), the sampled alternative is the first one whose cumulative probability reaches r; when rounding leaves the total below r it is the last alternative with positive probability. An alternative of probability 0 is never returned. One-at-a-time sampling and repeated sampling (search in cumulative probabilities) return the same alternative for the same probabilities and draw.',
 ['inputs'],'every probability vector (zeros anywhere, totals off by rounding) and every draw in [0,1]','tests probe a few fixed vectors and midpoints of the cumulative intervals; rounding and boundary draws are never hit',
 [core],[('sample_once',core),('logarithmic_search',core),('sample_multi',core),('simple_sample',core)],obs=['sample_once','logarithmic_search','simple_sample','multinomial_sample','nested_sample','ChoiceModel.run_discrete'])
p('C04','Results are reproducible: same seed, same answer, for any thread schedule',
 'Running a sampling or probability computation twice with the same inputs and the same random seed gives the same result, whatever the number of threads and the order in which rows are processed. No two rows of the parallel loops touch the same output cell, and every (row, draw) pair consumes its own element of the seeded random stream, so draws are never shared between decision units or repeated.',
 ['schedules','inputs'],'every interleaving of row iterations, every thread count, every seed','tests run one thread on at most 7 rows',
 [core,model],[('worker_multinomial_sample',core),('worker_nested_sample',core),('worker_weighted_sample',core),('generate_rand_floats_for_parallel',core),('_fast_indexed_add_*',core)],obs=['worker_*','ChoiceModel.run_discrete','fast_indexed_add'])
p('C05','Infeasible decision units are reported, or zeroed when the check is off',
 'When some decision unit has no feasible alternative (all utilities -inf), a discrete run, and a stochastic run with the infeasibility check on, raise UtilityBoundsError; they never raise it otherwise. With the check off a stochastic run gives that unit all-zero probabilities and logsum 0 and gives every other unit exactly the result it would have alone. A utility that evaluates to NaN is always rejected with UtilityBoundsError.',
 ['inputs','schedules'],'every placement of -inf and NaN cells, any row in any thread','no test has an infeasible or NaN utility',
 [core,model],[('check_infeasible branches',core),('worker_* loops',core),('NaN check in _evaluate_utilities',model)],obs=['ChoiceModel.run_stochastic','ChoiceModel.run_discrete'])
p('C06','The utility table is the sum of all expressions, masked by choice filters',
 'Evaluating a model gives, for every decision unit and choice, the sum over the evaluated expressions of the value of the expression at that cell, where an expression written "expr @ choice" contributes to that choice only and any partial utilities already added count once. Scalars, row-oriented and choice-oriented vectors, tables, matrices and dict literals broadcast along their declared orientation. Evaluating one group uses exactly the expressions of that group; evaluating the model uses the ungrouped ones and those of all groups. The sum of the expressions of two models has the expressions, groups and symbols of both and stays independent of them. When a debug_id is set, debug_results shows the utilities of that unit after each expression, and nothing else changes.',
 ['inputs','programs'],'all symbol values, all combinations of expressions, filters and groups','no test evaluates a utility expression through ChoiceModel',
 [model,api,'cheval/parsing/expressions.py'],[('ChoiceModel._evaluate_utilities',model),('ChoiceModel._kernel_eval',model),('ChoiceModel._make_column_mask',model)],obs=['ChoiceModel.run_stochastic'])
p('C07','Running a model does not change it: runs repeat and are independent',
 'A run, whether it succeeds or raises, leaves partial utilities, expressions, choices and decision units as they were, so running again with the same assigned data gives the same result and a run after re-assigning data equals the run of a fresh model. Data objects assigned by the user are never modified by a run. Changing the decision units discards data aligned with the old ones, including partial utilities, while numbers are kept.',
 ['histories'],'every sequence of runs, failed runs, re-assignments, and decision unit changes','no test runs a ChoiceModel at all',
 [model,api],[('ChoiceModel._partial_utilities',model),('decision_units setter',model),('_kernel_eval in-place output',model)],state=[('_cached_utils','cached partial utility table',model)],obs=['ChoiceModel.run_stochastic','ChoiceModel.run_discrete'])
p('C08','Expression translation preserves meaning and reports exactly the symbols used',
 'Translating a supported expression (arithmetic, unary minus, comparison chains, and/or/not, where and other functions, plain symbols, dotted attributes, aggregations) yields a form that evaluates, element by element, to the same values as the original expression. The symbols reported are exactly the names used, each dotted reference being substituted by its own distinct placeholder carrying the right attribute path, aggregation function and argument. Unsupported syntax, or using a name both plainly and dotted, raises UnsupportedSyntaxError.',
 ['programs','inputs'],'every expression of the supported grammar and all values of its symbols','the parser test module is entirely commented out',
 ['cheval/parsing/ast_transformer.py','cheval/parsing/expressions.py','cheval/parsing/expr_items.py'],[('ExpressionParser','cheval/parsing/ast_transformer.py'),('ChainedSymbol','cheval/parsing/expr_items.py')],obs=['Expression.parse','ChoiceModel.run_stochastic','LinkedDataFrame.evaluate'])
p('C09','Dict literals assign each listed value to its choices and zero elsewhere',
 'A dict literal contributes to each choice the number written for it and 0 to unlisted choices, for identifier, quoted and dotted keys, positive or negative numbers. In nested models "A.B" addresses that node alone and "A.B._" all nodes below A.B but not A.B itself, in any order of keys. Keys that name no choice, and non-numeric values, are rejected.',
 ['inputs','configurations'],'every tree, key set and value','no live test parses a dict literal',
 ['cheval/parsing/ast_transformer.py','cheval/parsing/expressions.py'],[('visit_dict','cheval/parsing/ast_transformer.py'),('Expression._prepare_dict_literals','cheval/parsing/expressions.py')],obs=['ChoiceModel.run_stochastic'])
p('C10','Vectors and tables are aligned by label or refused',
 'Assigning a Series or DataFrame is accepted only if its index equals the decision units (orientation 0) or the choices (orientation 1), and arrays only with the right length; otherwise the assignment raises. An accepted value is the one used for that unit or choice in utilities, including attributes reached through links and aggregations over links. Mandatory attributes are enforced, and linked frames are refused exactly when the table was declared without links.',
 ['inputs','configurations'],'all index contents, orders and lengths, all values','no test assigns a symbol',
 [api],[('VectorSymbol.assign',api),('TableSymbol.assign/_get',api)],obs=['ChoiceModel[...].assign','ChoiceModel.run_stochastic'])
p('C11','Matrix symbols place every cell by its labels and fill the rest',
 'A matrix assigned to a matrix symbol contributes each of its cells to the unit and choice named by that cell, whatever the order of rows and columns and whether rows, columns or both cover only part of the model; cells not covered take the fill value. Orientation 1 means the same matrix transposed. Labels that do not belong to the model are refused, as is reindexing along an axis declared without it.',
 ['inputs','configurations'],'all row and column label sets, subsets and orders, all values','no test assigns a matrix',
 [api],[('MatrixSymbol.assign',api)],obs=['ChoiceModel[...].assign','ChoiceModel.run_stochastic'])
p('C12','Copies behave like the original and are independent of it',
 'A full copy of a model gives the same results as the original, and a copy made for a subset of decision units gives exactly the rows of the original results selected by the mask. Later changes to one (expressions, groups, symbols, partial utilities, runs) never affect the other. What a partial copy was asked to leave out is absent.',
 ['inputs','histories'],'all masks, symbol values, model contents and subsequent operations','no test copies a model',
 [model,api],[('ChoiceModel.copy',model),('ChoiceModel.copy_subset',model),('*Symbol.copy',api),('ExpressionGroup.copy',api)],obs=['ChoiceModel.run_stochastic on the copy'])
p('C13','Pre-evaluating a group and running the rest equals running everything',
 'Pre-evaluating an expression group and dropping it, then running the model, gives the same result as running the model with all expressions at once, in any order of groups and also through copies and subset copies made in between. Cleaning up the scope removes the symbols of the group, except those a remaining expression uses, so the remaining model still validates and runs. Partial utilities added before or after are counted once.',
 ['histories','inputs'],'all partitions of expressions into groups, all orders of preval, copy and partial additions','no test uses groups or preval',
 [model,api],[('ChoiceModel.preval',model),('ExpressionGroup',api)],state=[('_cached_utils','pre-evaluated utilities',model)],obs=['ChoiceModel.preval','ChoiceModel.run_stochastic'])
p('C14','The choice tree maps nodes to unique labels and correct parents',
 'However a tree of choices is built, the choices index lists every node once in insertion order, with a label that is the path of its names padded to the depth of the tree, and elemental choices are exactly those without children. Probabilities and terms are reported under the label of the node they belong to. Adding a choice whose name already exists in the same nest replaces the old node together with everything below it.',
 ['configurations','histories'],'every tree, names repeated across nests, every order of additions and replacements','tests build one fixed tree and never look at labels',
 [model,api],[('ChoiceModel._create_node',model),('ChoiceModel.choices',model),('ChoiceNode.nested_id',api),('ChoiceModel._flatten',model)],obs=['ChoiceModel.choices','ChoiceModel.elemental_choices','run_stochastic columns'])
p('C15','Discrete results are labelled with the sampled choice',
 'For every requested result type (category, index positions, or a dtype), number of draws and squeeze setting, cell (unit, draw) of a discrete run denotes the alternative that was sampled for that unit and draw: index results are its position in the choices index and other results are its label (the path of names in a nested model). Rows are the decision units; one squeezed draw gives a Series with the requested name, otherwise a DataFrame with one column per draw. The logsum returned is the top-level term of the unit, the same as in a stochastic run.',
 ['inputs','configurations'],'all sampled outcomes, result types, draw counts, flat and nested models','no test runs ChoiceModel.run_discrete',
 [model],[('ChoiceModel.run_discrete',model),('ChoiceModel._convert_result',model)],obs=['ChoiceModel.run_discrete'])
p('C16','Ill-formed models are refused and failed operations change nothing',
 'A run is refused with ModelNotReadyError when fewer than two top-level choices exist, when a nest has exactly one child, when decision units are missing, or when an expression to be evaluated uses a symbol that is undeclared or unassigned; well-formed models are accepted. Adding an expression or a choice that is rejected leaves the model exactly as it was. Reserved names cannot be declared.',
 ['histories','configurations'],'all model construction histories including rejected steps','no test validates a model',
 [model,api],[('ChoiceModel.validate',model),('ExpressionGroup.append',api)],obs=['ChoiceModel.validate','ChoiceModel.run_*','ExpressionGroup.append'])
p('C17','Link lookups return, for each row, the matching row or the fill value',
 'For a link that needs no aggregation, looking up an attribute gives a Series indexed like the left-most frame whose i-th value is the attribute of the target row with the same key, through any chain of such links. Rows without a match, including those with null keys and links to an empty frame, get the fill value for the type of the attribute (or the fill set on that column of the target). The result is the same whether the index was pre-computed or computed on first use, and shows the target as it is when it is read; after compute_indexers() the current keys count.',
 ['inputs','configurations'],'all key columns or index levels on both sides (duplicates, missing, null, multi-level), all attribute types and chain lengths','tests use one fixed pair of tables and one missing key',
 [ldf,'cheval/ldf/missing_data.py'],[('_LinkMeta._make_indexer',ldf),('_BaseNode._resolve_history',ldf),('_LinkNode/_LinkLeaf',ldf)],obs=['LinkedDataFrame attribute access'])
p('C18','Aggregations over links reduce exactly the matching rows',
 'For a link that needs aggregation, frame.link.f(expr) gives for each row f over the values of expr in exactly the target rows with the same key, aligned with the frame and through any chain of further links. Target rows with null keys belong to no row. Rows with no matching target rows get the integer fill when the expression or the result is integer-valued, and NaN otherwise.',
 ['inputs','configurations'],'all key patterns including unmatched and null keys on both sides, all supported reductions','tests use one fixed table where every key matches',
 [ldf],[('_LeafAggregation._Aggregator.__call__',ldf),('_LinkMeta._make_indexer',ldf)],obs=['LinkedDataFrame.<link>.<reduction>(expr)'])
p('C19','Slicing or reordering rows commutes with link lookups',
 'Selecting, reordering, sampling, sorting, dropping, re-indexing, copying or grouping the rows of a linked frame and then looking up a link gives the same values as looking up the link first and applying the same row operation. Links that cannot be kept are absent; they never return values belonging to other rows. The original frame and its links are unaffected.',
 ['inputs','histories'],'all masks, label lists, slices, permutations and compositions of row operations, all key patterns, duplicate row labels','tests cover one boolean mask, one label list and one groupby',
 [ldf],[('LinkedDataFrame.__finalize__',ldf),('_take_with_is_copy/_slice/_reindex_with_indexers/copy',ldf),('_LinkMeta.copy',ldf)],obs=['LinkedDataFrame row operations followed by link access'])
p('C20','Frame expressions and pivots see the columns and links of each row',
 'Evaluating an expression on a linked frame gives a Series indexed like the frame whose i-th value is the expression over the i-th values of the named columns, linked attributes and aggregated links, also when written into an output Series. Frame columns, text, categorical, boolean and nullable integer values keep their values in comparisons and arithmetic. A pivot table over columns and dotted lookups equals the pivot of a plain frame holding the same looked-up columns.',
 ['inputs','programs'],'all column values and link patterns; all mixes of columns and lookups','tests evaluate two expressions on one fixed table; only single-name pivots',
 [ldf,'cheval/utils.py'],[('LinkedDataFrame.evaluate',ldf),('LinkedDataFrame.pivot_table',ldf),('convert_series','cheval/utils.py')],obs=['LinkedDataFrame.evaluate','LinkedDataFrame.pivot_table'])
p('C21','Missing-value fills follow the documented precedence and scope',
 'The fill used for a missing link is the one set on the column of the target frame if any, else the default of the target frame for that type, frames taking their initial defaults from the class-level settings in force when they are created. Setting defaults on one frame never affects another, resetting restores the documented defaults, and temporary defaults hold inside the block and are restored when it ends, normally or by an exception.',
 ['histories'],'all sequences of set, reset, temporary-set at class, instance and column level','no test changes a fill value',
 [ldf,'cheval/ldf/missing_data.py'],[('SeriesFillManager','cheval/ldf/missing_data.py'),('LinkedDataFrame._get_fill',ldf)],obs=['link lookups with missing rows'])
p('C22','Partial utilities are added to exactly the named cells',
 'Adding a partial utility table adds each of its cells to the unit and choice named by its labels and leaves all other cells unchanged, for full tables and for tables covering some rows, some columns or both in any order. Repeated additions accumulate. Tables naming unknown units or choices, or needing an expansion that was not allowed, are refused and change nothing.',
 ['inputs','histories'],'all label subsets and orders, values, and sequences of additions','no test adds partial utilities',
 [model,core],[('ChoiceModel.add_partial_utilities',model),('fast_indexed_add',core)],obs=['ChoiceModel.run_stochastic','fast_indexed_add'])
p('C23','Links are classified correctly and impossible links are refused',
 'Creating a link reports that aggregation is required exactly when target keys repeat while the keys of the frame do not, and refuses keys that repeat on both sides. Specifying both columns and levels for one side, a different number of keys on the two sides, or unknown columns or levels raises a linkage specification error and leaves existing links as they were.',
 ['inputs','configurations'],'all key contents on both sides and all combinations of link arguments','tests create only valid links on fixed keys',
 [ldf],[('LinkedDataFrame.link_to',ldf),('_LinkMeta._determine_aggregation',ldf)],obs=['LinkedDataFrame.link_to'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
