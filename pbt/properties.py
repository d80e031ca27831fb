"""The properties: source of properties.jsonl and MANIFEST.json."""

GENERIC = ('Cases are sampled, not enumerated: absence of a violation within '
		'the generated sizes is evidence, not proof.')

PROPERTIES = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, technique, note='',
		over=('inputs', )):
	PROPERTIES.append(dict(id=id, title=title, statement=statement,
			quant=quant, why=why, files=list(files), mech=list(mech),
			technique=technique, note=(note + ' ' + GENERIC).strip(),
			over=list(over)))


T = 'discodop/tree.py'
P('C01', 'Tree edits behave like list edits and keep parent links consistent',
	'After any sequence of edits to a tree with parent links (append, insert, '
	'extend, remove, pop, item/slice assignment and deletion, detach, splice, '
	'prune), the children of every node are those that the same edits on plain '
	'lists would give, and the parent, parent index, siblings, root, and tree '
	'position of every node agree with the actual structure. An edit that is '
	'refused with an exception leaves all trees unchanged.',
	'All sequences of edits, with in-range and out-of-range indices, plain '
	'leaves, fresh, detached and already attached subtrees.',
	'The doctests show a few single edits; consistency depends on the history '
	'of edits and on argument combinations.',
	[T], [('Tree list methods', T + ' class Tree'),
		('_setparent/_delparent', T + ' class ParentedTree')],
	'model-based operation sequences against a list model',
	over=['histories', 'inputs'])
P('C02', 'Tree queries report what is in the tree',
	'For every tree, the queries for leaves, height, subtrees, preorder and '
	'postorder traversal, tags, tree positions, search, covering position, and '
	'printed representation give the values that follow from the tree\'s '
	'structure alone, for every tree class. Traversals visit every node exactly '
	'once and leave the tree as it was.',
	'All trees: any branching, unary chains, discontinuous or continuous.',
	'Tests query a handful of fixed trees.',
	[T], [('Tree queries', T + ' class Tree')],
	'differential testing against recursive reference definitions')
P('C03', 'Copies are independent, frozen trees immutable, equality lawful',
	'A copied, converted, or frozen tree equals the original and shares no '
	'mutable node with it, and every attempt to modify a frozen tree is refused. '
	'Two trees compare equal exactly when they have the same labels and '
	'structure (for a discontinuous tree paired with a sentence: the same words '
	'at all leaves), and equal frozen trees have equal hashes. Comparison '
	'operators order trees consistently: by label, then by children, terminals '
	'before constituents.',
	'All trees and pairs of trees, equal or differing in a single place.',
	'Tests compare a few trees; a difference at an arbitrary place or a single '
	'missing guard is not sampled.',
	[T], [('copy/convert/freeze', T + ' class Tree'),
		('ImmutableTree overrides', T + ' class ImmutableTree'),
		('DiscTree.__eq__/__hash__', T + ' class DiscTree')],
	'round trips and pairs of trees with a generated single difference')
B = 'discodop/treebank.py'
P('C04', 'Bracketed notations parse back to the trees they were written from',
	'Writing a tree as a bracketed string (s-expression, bracket or discbracket '
	'notation) and parsing that string gives an equal tree and the same '
	'sentence: all labels, child order, words (including words with parentheses, '
	'equal signs, digits) and empty terminals survive, whatever the whitespace '
	'between brackets, and the discbracket format is recognized automatically. '
	'Malformed strings (unbalanced brackets, trailing material) raise ValueError.',
	'All trees and sentences over an adversarial alphabet, and single-character '
	'corruptions of their notation.',
	'Tests parse a few fixed strings.',
	[T, B], [('Tree.parse', T + ' class Tree'),
		('brackettree, discbrackettree', T),
		('writebrackettree/writediscbrackettree', T),
		('escape/unescape', T)],
	'round trips and corrupted notations')
P('C05', 'Tree drawings depict exactly the tree that was drawn',
	'The text drawing of a tree (with or without discontinuous constituents, '
	'sentence, highlighting, abbreviation, maximum width, function labels) can be '
	'decoded back to the same labels, dominance relations, and word order; the '
	'HTML, LaTeX and SVG drawings contain the same nodes, edges, and words, '
	'with special characters escaped, and SVG drawings lie within their bounds. '
	'Drawing never fails and never modifies the tree. (Known limit: with three '
	'or more crossing discontinuous constituents, branches may overlap.)',
	'All trees with up to two discontinuous constituents; words of any width.',
	'Tests print drawings of a few trees without an oracle.',
	[T], [('DrawTree', T + ' class DrawTree')],
	'decoding the drawing back to a tree (round trip), differential between '
	'output formats')
P('C06', 'Treebank formats read back the trees and sentences written',
	'A corpus of trees written in a supported format (export, bracket, '
	'discbracket, alpino, tiger, ftb), with the annotations the format supports '
	'(functions, morphology, lemmas, secondary edges, comments), is read back '
	'as the same trees, sentences, keys, and annotations, in the same order; '
	'the line-based output formats (tokens, wordpos, dependencies) list every '
	'token in order.',
	'All corpora of trees with adversarial words, labels and keys; export trees '
	'up to 500 phrasal nodes.',
	'Tests round-trip one small treebank.',
	[B, T], [('writetree and friends', B),
		('CorpusReader subclasses', B), ('exporttree/exportparse', B)],
	'round trips through files and differential reading')
P('C07', 'Corpus readers present every sentence once, in order, in every view',
	'For every treebank format, and a corpus spread over any number of '
	'(compressed) files, the trees, sentences, tagged sentences, raw blocks, and '
	'the streaming interface with any start and end give the same sentences '
	'under the same keys in corpus order (files in numeric order), whatever the '
	'order of requests; a raw block holds the same tree. Corpora in export format '
	'with unbalanced, mismatched, or duplicate sentence markers, and unknown '
	'option values, raise ValueError.',
	'All corpora, divisions over files, sequences of requests, slices.',
	'Tests read one small file per format.',
	[B, 'discodop/util.py'], [('CorpusReader', B), ('numbase', B),
		('openread', 'discodop/util.py')],
	'round trips over generated corpora and request sequences; differential '
	'between views')
P('C08', 'Streamed trees are found incrementally, in order, with their text',
	'Reading trees incrementally from a stream of lines (export, Alpino XML, '
	'bracket, discbracket, mixed with other text) yields every tree of the stream '
	'once, in order, with its sentence and comment, as soon as it is complete; '
	'other text is passed along unchanged and in order when requested. In strict '
	'mode unbalanced brackets and sentence markers raise ValueError; by default '
	'malformed data is skipped without affecting the other trees.',
	'All streams: interleavings of trees in any format with other lines, line '
	'breaks within bracketed trees, brackets closing over lines.',
	'Tests feed at most one tree of one format.',
	[T, B], [('incrementaltreereader', B), ('segmentbrackets, segmentexport, '
		'segmentalpino', B)],
	'generated streams with a list of expected events')
P('C09', 'Annotation options change exactly the requested labels and words',
	'When reading a treebank with options for function tags, morphology and '
	'lemmas (no, add, replace, between, leave, remove), exactly the node labels '
	'and words that the option concerns change in the documented way; structure, '
	'other labels, and the separate annotation fields stay as annotated; '
	'missing annotations count as empty ones.',
	'All trees with annotations in export, tiger, alpino, ftb and bracket format '
	'times all combinations of options.',
	'Tests cover few combinations on one treebank.',
	[B], [('handlefunctions, handlemorphology', B),
		('CorpusReader._parse', B)],
	'independent serializer and reference definition of the options')
P('C10', 'Dependency conversion gives each word its lexical head',
	'Converting a head-marked constituency tree to dependencies gives every word '
	'exactly one head: the lexical head of the smallest constituent in which the '
	'word is not itself the head, with the function of the child as label, and '
	'exactly the word heading the whole tree gets the root; dependency length '
	'and the CoNLL and MST output, and drawings of it, have the same content.',
	'All trees with any choice of head child and functions.',
	'Tests convert a fixed sentence.',
	[B, T], [('dependencies, _makedep, deplen', B),
		('writedependencies', B), ('DrawDependencies', T)],
	'reference definition; round trip through CoNLL and HTML output')
X = 'discodop/treetransforms.py'
P('C11', 'Binarization follows its options and is always reversible',
	'Binarizing a tree with any combination of options (factorization direction, '
	'Markovization, parent annotation, head-outward, unary start or end, markers, '
	'thresholds, label filters, identifiers) gives a tree without constituents '
	'larger than the threshold, with the documented artificial labels; debinarizing '
	'gives back the original tree. The same holds for collapsing unaries, '
	'introducing preterminals, and fan-out markers. With unlimited horizontal '
	'context, binarized productions derive exactly the original productions.',
	'All trees (discontinuous, unary, any arity, plain or with parent pointers), '
	'times all options.',
	'Tests binarize one treebank with a few settings.',
	[X], [('binarize/unbinarize', X), ('factorconstituent', X),
		('collapseunary', X), ('introducepreterminals', X),
		('addfanoutmarkers', X), ('markovthreshold', X)],
	'round trips, and differential testing against a reference binarization',
	note="Reference structure only for trees without heads; threshold 1 is only "
	'checked for reversibility.')
H = 'discodop/heads.py'
P('C16', 'Head and modifier rules select the children that they describe',
	'Given a file with head rules, every constituent gets exactly one head, the '
	'child that the rules select according to their documented order, direction '
	'and wildcards, irrespective of case, unless a head is already marked; readers '
	'mark the same heads, modifier rules mark the non-heads as described, '
	'heads are recovered from head-outward binarized trees, and head statistics '
	'count what is in the trees.',
	'All rule tables and trees over a small alphabet in upper and lower case.',
	'Tests apply one rule file to one treebank.',
	[H], [('applyheadrules, headfinder', H), ('readheadrules', H),
		('markmodifiers, readmodifierrules', H), ('headstats', H),
		('saveheads', H)],
	'reference interpretation of rule tables')
PU = 'discodop/punctuation.py'
U = 'discodop/util.py'
P('C12', 'Optimal binarizations are optimal and reversible',
	'For every discontinuous constituent, optimalbinarize (with or without head '
	'driven strategy) gives a binarization such that no other binarization of the '
	'same constituent scores better by the selected criterion (maximum parsing '
	'complexity or fan-out first); yields are preserved and unbinarizing gives '
	'back the original tree.',
	'All discontinuous productions with up to 6 children, and all trees with '
	'those.',
	'Tests look at one production.',
	[X], [('optimalbinarize', X), ('minimalbinarization', X),
		('complexityfanout, fanoutcomplexity', X)],
	'differential testing against brute-force search over all binarizations')
P('C13', 'Discontinuity transformations lose nothing and can be undone',
	'Splitting discontinuous constituents gives a continuous tree (after '
	'reordering) with exactly the documented component labels, and merging gives '
	'back the original tree with its heads; raising gives a continuous tree by '
	'moving non-head components up; continuous subsets and canonical order are as '
	'defined. Terminals and their tags are never lost, duplicated or reordered.',
	'All discontinuous trees with any assignment of heads.',
	'Tests transform a single sentence.',
	[X], [('splitdiscnodes/mergediscnodes', X), ('raisediscnodes', X),
		('canonicallyorderedtree', X), ('contsets', X)],
	'round trips and reference definitions on generated discontinuous trees')
P('C14', 'Removing terminals or empty nodes removes nothing else',
	'removeterminals and removeemptynodes remove exactly the selected words and '
	'the constituents that became empty; every other constituent keeps its label, '
	'place and remaining words, and tokens and indices are renumbered '
	'consistently.',
	'All trees with any subset of words to remove.',
	'Tests remove one or two words from a single tree.',
	[X, T], [('removeterminals', X), ('removeemptynodes', X), ('prune', T)],
	'reference definition on generated trees')
P('C15', 'Punctuation strategies move only punctuation, as documented',
	'Removing, pruning, attaching to root, lowering, raising, and balanced raising '
	'of punctuation put every punctuation mark where the strategy says, and leave '
	'all other words, constituents and the order of words as they were; nothing '
	'is lost except by removal.',
	'All trees with any placement of punctuation, including quotation marks '
	'and brackets in any combination.',
	'Tests use one or two sentences per strategy.',
	[PU, X], [('punctremove, punctprune', PU), ('punctlower, punctraise', PU),
		('balancedpunctraise', PU), ('applypunct', PU)],
	'reference definition of each strategy on generated trees')
P('C17', 'Agenda and ordered collections behave as their models',
	'After any sequence of operations the priority agenda has the contents of a '
	'dictionary and always yields an item with the lowest value (first in, first '
	'out among ties of fresh items); ordered sets behave as sets that keep '
	'insertion order; merging sorted sequences gives the sorted union.',
	'All sequences of operations over a small key space.',
	'Tests perform a few operations in a fixed order.',
	[U], [('PyAgenda', U), ('OrderedSet', U), ('merge', U)],
	'model-based testing over operation sequences')
P('C18', 'Text and file utilities are lossless',
	'Tokenization only adds spaces and separates punctuation and English and '
	'French contractions as documented; '
	'centering pads to the requested width; compressed and plain files are read '
	'and written as same text; slices with steps select the items that Python '
	'slices select; programs are found in the search path in order; external '
	'commands report status and output faithfully.',
	'All texts, slices and search paths within the generated sizes.',
	'Tests tokenize one sentence.',
	[U], [('tokenize', U), ('openread, readbytes', U), ('slice_bounds', U),
		('which', U), ('genericdecompressor', U)],
	'round trips and reference definitions on generated text')
P('C19', 'Bit set operations agree with sets of integers at any size',
	'Every operation on bit vectors (set, clear and test a bit, next set or unset '
	'bit, iteration, counting, fan-out, union, intersection, subset) gives the '
	'result that the same operation on a set of integers gives, for single words, '
	'arrays of words, and Python integers of any size, and touches no memory '
	'outside of the array.',
	'All bit vectors, in particular at word boundaries.',
	'Tests use a few small vectors.',
	['discodop/bit.pyx', 'discodop/bit.pxd', 'discodop/macros.h'],
	[('fanout, pyintnextset', 'discodop/bit.pyx'),
		('nextset, anextset, iteratesetbits, setunion, subset, ...',
		'discodop/bit.pxd')],
	'differential testing against Python sets')
P('C24', 'Tree edit distance is the minimum number of node edits',
	'Both tree edit distance implementations return the minimum number of node '
	'insertions, deletions and relabelings needed to turn one tree into the '
	'other; the distance is a metric; the edit script has exactly that many '
	'operations and accounts for every node; arguments are not modified.',
	'All pairs of (discontinuous) trees of up to 6 words; trees of up to 150 '
	'words against small trees.',
	'Tests compare one or two pairs.',
	['discodop/treedist.py'], [('treedist', 'discodop/treedist.py'),
		('newtreedist, geteditstats', 'discodop/treedist.py')],
	'differential testing against textbook recursion; metric axioms')
P('C25', 'Generated sentences follow the grammar and its probabilities',
	'Sentences generated from a grammar are in its language, the reported '
	'probability is that of a derivation of the sentence, and sentences are '
	'distributed according to the grammar; grammars in either text format, '
	'compressed or not, are loaded with exactly the rules and weights that were '
	'written.',
	'All small binarized (discontinuous) grammars.',
	'Tests do not generate sentences, and output is random.',
	['discodop/gen.py'], [('gen, chooserule, compose', 'discodop/gen.py'),
		('splitgrammar', 'discodop/gen.py'),
		('read_lcfrs_grammar, read_bitpar_grammar', 'discodop/gen.py')],
	'exhaustive reference derivations; concentration bound on samples')
P('C20', 'Extracted grammars contain exactly the rules and fragments of the trees',
	'The productions extracted from a tree, their yield functions, frontier '
	'non-terminals and frequencies are exactly those that the tree contains; a '
	'treebank grammar has the relative frequency of each production, in a '
	'documented order; composing the productions again gives the tree; '
	'malformed trees are rejected.',
	'All discontinuous trees of up to 7 words, with frontier non-terminals.',
	'Tests print the grammar of a single tree.',
	['discodop/grammar.py'], [('lcfrsproductions', 'discodop/grammar.py'),
		('treebankgrammar, sortgrammar', 'discodop/grammar.py')],
	'reference extraction and recomposition on generated treebanks')
P('C21', 'Grammar files preserve rules, lexicon and weights',
	'A grammar written to text files and read again has the same rules, words and '
	'weights (to the precision in which they are written); merging grammar files gives the sum of the frequencies; '
	'statistics (number of rules, labels, words, fan-out, arity) are those of the '
	'grammar; parse indices do not clash and do not turn non-terminals into words.',
	'All small grammars with unusual labels, words and weights.',
	'Tests do not read back grammars in every format.',
	['discodop/grammar.py'], [('writegrammar, write_lcfrs_grammar',
		'discodop/grammar.py'), ('merge, sumrules, sumlex, sumfrags',
		'discodop/grammar.py'), ('grammarinfo, grammarstats',
		'discodop/grammar.py')],
	'round trips and merging against counters')
P('C22', 'DOP reduction assigns derivations the probabilities of all fragments',
	'For each estimator (RFE, EWE, Bonnema, shortest derivation) the grammar of '
	'the DOP reduction gives a tree the same total probability as explicit '
	'enumeration of all fragments of the treebank with their weights.',
	'All treebanks of a few small (discontinuous) trees.',
	'Tests check one treebank and one estimator in a long experiment.',
	['discodop/grammar.py'], [('dopreduction', 'discodop/grammar.py'),
		('nodefreq, TreeDecorator', 'discodop/grammar.py')],
	'exact rational arithmetic over all fragments')
P('C23', 'Fragment grammars represent exactly the given fragments',
	'Each fragment is converted to rules that derive exactly its frontier with its '
	'yield function, no two fragments share rules that could be confused, the '
	'template belonging to a rule restores the fragment, and weights (frequency, '
	'EWE, Bonnema, given weights, extra rules) follow their definition.',
	'All sets of fragments of (discontinuous) trees of up to 9 words.',
	'Tests convert a single fragment.',
	['discodop/grammar.py'], [('dopgrammar, compiletsg, flatten',
		'discodop/grammar.py')],
	'reference fragments cut from generated trees; expansion of rules')
P('C28', 'Coarse-to-fine pruning keeps exactly the items it promises',
	'After parsing with a coarse grammar, the fine chart contains exactly the '
	'items derivable from items whose projections are in the selected coarse '
	'items: those in a complete derivation (k=0), in one of the k best '
	'derivations (k>=1), or with a posterior probability above the threshold '
	'(0<k<1); required constituents are part of every derivation kept, blocked '
	'ones of none; labels marked as never blocked are not pruned; with a split '
	'coarse grammar, a discontinuous item is kept iff all its components are; '
	'the Viterbi probabilities of remaining items are right.',
	'All coarse grammars, fine grammars with split states, sentences (also those '
	'longer than a machine word), thresholds and constraints; CFG and LCFRS.',
	'Tests parse a few sentences with one pruning setting.',
	['discodop/coarsetofine.pyx', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx',
		'discodop/_grammar.pxi'],
	[('prunechart', 'discodop/coarsetofine.pyx'),
		('posteriorthreshold', 'discodop/coarsetofine.pyx'),
		('Grammar.getmapping', 'discodop/_grammar.pxi'),
		('checkwhitelist', 'discodop/plcfrs.pyx')],
	'differential testing against a reference parser with pruning')

P('C29', 'Disambiguation objectives are those of the DOP model',
	'For a DOP reduction, Double-DOP or DOP1 grammar of a treebank, the parse '
	'trees of a sentence and their scores are those of the tree-substitution '
	'grammar with the fragments and weights of the treebank: the probability of '
	'a parse tree is the sum over its derivations (mpp), its best derivation '
	'(mpd), the smallest number of fragments with ties broken by probability '
	'(shortest), or both (sl-dop); with the k best derivations it is exactly '
	'their share. The fragments reported form such a derivation. Required or '
	'blocked labeled spans filter the trees with every objective. Exact '
	'probabilities of given trees (reranking, tree parsing) agree; the most '
	'constituents correct parse maximizes its objective and covers the '
	'sentence. The weights and rules of the grammar are left as they were.',
	'All treebanks, fragment depths, weights (relative frequency, EWE, Bonnema), '
	'sentences (also longer than a machine word), words, and constraints.',
	'A smoke test prints the results for one sentence with a toy grammar.',
	['discodop/disambiguation.pyx', 'discodop/grammar.py',
		'discodop/_grammar.pxi', 'discodop/kbest.pyx'],
	[('marginalize', 'discodop/disambiguation.pyx'),
		('sldop', 'discodop/disambiguation.pyx'),
		('recoverfragments_', 'discodop/disambiguation.pyx'),
		('dopparseprob', 'discodop/disambiguation.pyx'),
		('dopgrammar', 'discodop/grammar.py')],
	'differential testing against enumeration of derivations of a TSG',
	)

P('C30', 'Recurring tree fragments are extracted exactly, with exact frequencies',
	'For every treebank (or pair of treebanks), fragment extraction returns '
	'exactly the maximal connected fragments that some pair of trees shares '
	'(optionally only of adjacent trees, or with two terminals), and on request '
	'all fragments up to a given depth and number of substitution sites; each '
	'with its exact frequency or the trees where it occurs, also when given '
	'fragments are looked up in (part of) another treebank. The output does not '
	'depend on the number of processes, the file format, or the slices in which '
	'the work is divided; the options of the fragments command do what they say.',
	'All treebanks of small trees, continuous or discontinuous, in which labels '
	'and words recur; trees of more than 64 nodes; hundreds of trees.',
	'Tests extract fragments from one treebank and do not check the result.',
	['discodop/_fragments.pyx', 'discodop/fragments.py',
		'discodop/containers.pyx'],
	[('extractfragments, exactcounts, exactcountsslice, completebitsets, '
		'allfragments, readtreebank', 'discodop/_fragments.pyx'),
		('recurringfragments, main', 'discodop/fragments.py'),
		('Ctrees, Vocabulary', 'discodop/containers.pyx')],
	'differential testing against a direct comparison of all pairs of nodes')

P('C31', 'Evaluation scores follow PARSEVAL, also for discontinuous trees',
	'Bracket counts, recall, precision, F-measure, exact match, POS accuracy, '
	'function tags, leaf-ancestor and tree-distance scores, for single sentences, '
	'running totals, the summary for all and for short sentences, and by category, '
	'equal their definition over multisets of labeled sets of word positions; '
	'each setting of the parameter file and command line option (labels, words '
	'to delete or equate, root preterminals, unlabeled, discontinuous only, '
	'cutoff) has its documented effect; a tree compared with itself has perfect '
	'scores, swapping gold and candidate swaps recall and precision; sentences '
	'that do not match are rejected; no input crashes the evaluation.',
	'All treebanks of pairs of (discontinuous) trees of up to 8 words, with all '
	'combinations of parameters.',
	'Tests evaluate one pair of files with one parameter file.',
	['discodop/eval.py'], [('TreePairResult, EvalAccumulator',
		'discodop/eval.py'), ('transform, bracketings', 'discodop/eval.py'),
		('readparam, transitiveclosure', 'discodop/eval.py'),
		('leafancestorpaths', 'discodop/eval.py')],
	'differential testing against a reference scorer; metamorphic relations')
P('C38', 'Treebank commands have the documented effect on every tree',
	'The command line tools for treebanks (treetransforms, treedraw) select '
	'exactly the requested sentences, apply each option like the corresponding '
	'function and in the given order, in the requested formats and encodings; '
	'reversible transformations are undone by the options documented to undo '
	'them; sentences, words and tags are preserved; wrong usage is reported.',
	'All sequences of options on small (discontinuous) treebanks, in all formats.',
	'Tests only check that a few commands run without an error.',
	['discodop/cli.py'], [('treetransforms', 'discodop/cli.py'),
		('treedraw', 'discodop/cli.py'), ('main', 'discodop/cli.py')],
	'differential testing against the Python API; round trips of options')
P('C39', 'The grammar command writes exactly the grammar that was requested',
	'For every treebank and type of grammar, the files written by `discodop '
	'grammar` have exactly the rules and weights of the grammar extracted from '
	'that treebank (rules sorted, lexicon separate, alternative weights aligned '
	'with the rules), merging grammars adds up the weights of all parts, and a '
	'probabilistic tree-substitution grammar has exactly the given fragments.',
	'All small treebanks, grammar types, estimators and options.',
	'Tests do not run the command.',
	['discodop/cli.py', 'discodop/grammar.py'],
	[('grammar', 'discodop/cli.py'), ('sortgrammar', 'discodop/grammar.py'),
		('merge', 'discodop/grammar.py')],
	'differential testing against grammars extracted through the API')

P('C26', 'The chart parsers find exactly the derivations of the grammar',
	'For every binarized PCFG or LCFRS and every sentence, the parsers succeed '
	'exactly when there is a derivation; the chart contains exactly the items and '
	'edges that can be derived, each once, with the probability of the best '
	'derivation of each item, whichever kind of chart is used (CKY with dense or '
	'sparse chart, LCFRS with short or long sentences); given POS tags, start '
	'symbol, and rule mask restrict the derivations accordingly; sentences '
	'too long for a chart are refused.',
	'All binarized grammars of a few rules with arbitrary yield functions, unary '
	'cycles, and ambiguity; sentences up to 6 words, or long unambiguous ones.',
	'Tests parse a handful of sentences and look at the best derivation.',
	['discodop/pcfg.pyx', 'discodop/plcfrs.pyx', 'discodop/containers.pyx'],
	[('parse (CKY)', 'discodop/pcfg.pyx'), ('parse (LCFRS)',
		'discodop/plcfrs.pyx'), ('concat', 'discodop/plcfrs.pyx')],
	'differential testing against exhaustive deduction')

P('C27', 'K-best derivations are the k most probable ones, in order',
	'For every chart, the list of k-best derivations has exactly the k most '
	'probable derivations of the sentence (or all of them when there are fewer), '
	'each once, ordered by probability, each with the product of the '
	'probabilities of its rules; also when there are ties, and the same for all '
	'kinds of charts; with unary cycles the list is still ordered, without '
	'duplicates and starts with the best derivation; without a parse an error is '
	'raised.',
	'All ambiguous binarized (acyclic or cyclic) grammars; every k up to more '
	'than the number of derivations.',
	'Tests only count derivations of a few sentences.',
	['discodop/kbest.pyx'], [('lazykbest', 'discodop/kbest.pyx'),
		('getderiv', 'discodop/kbest.pyx')],
	'differential testing against enumeration of all derivations')

P('C33', 'Corpus queries report exactly the matching sentences',
	'For every collection of corpora and every query with regular expressions '
	'or tree fragments, the reported counts, sentence numbers, matching '
	'sentences, trees and highlighted positions are exactly those of the '
	'occurrences in the selected files and interval of sentences, in order, up '
	'to the maximum number of results; the answers do not depend on queries made '
	'before (caching), on the number of processes, on whether corpora are kept '
	'in memory, or on index files left by previous sessions.',
	'All histories of queries on a searcher; sequences of sessions in the same '
	'directory; slices, limits, subsets, macros; continuous and discontinuous '
	'treebanks in all supported formats.',
	'There are no tests for searching corpora.',
	['discodop/treesearch.py'], [('FragmentSearcher',
		'discodop/treesearch.py'), ('RegexSearcher', 'discodop/treesearch.py'),
		('exactcountsslice', 'discodop/_fragments.pyx')],
	'model-based testing of query histories against a reference search')

P('C34', 'Unknown word models cover every word with the right tags',
	'The statistics of the unknown word model agree with their definition: '
	'words at or below the frequency threshold are rare unless they occur with a '
	'closed class tag; tags are open when they rewrite to at least the given '
	'number of types, after removing function tags, morphology, and state splits. '
	'Word signatures agree with the specification of their model. Training and '
	'test words are replaced consistently, and only when needed: every word of '
	'every test sentence is replaced by a word or signature of the grammar. The '
	'parser considers exactly the tags of the replaced word, and for open class '
	'words also those of its signature, with the documented probabilities.',
	'All tagged corpora and test sentences, including numbers, years and '
	'words in upper case; all models and thresholds; PCFG and PLCFRS parsers.',
	'There are no tests for unknown words.',
	['discodop/lexicon.py', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx'], [
		('getunknownwordmodel', 'discodop/lexicon.py'),
		('replaceraretestwords', 'discodop/lexicon.py'),
		('UNKNOWNWORDFUNC', 'discodop/lexicon.py'),
		('populatepos', 'discodop/pcfg.pyx')],
	'differential testing against a reference model')

P('C35', 'Outside estimates are admissible and preserve the best derivation',
	'For every PCFG, the SX estimate of a label with some number of words to its '
	'left and right is exactly the best outside probability in any sentence. For '
	'every PLCFRS with ordered rules, the SXlrgaps estimate of each constituent '
	'that is part of a parse is at least as high as its best outside probability. '
	'Parsing with either estimate finds the same best derivation with the same '
	'probability as without, also for sentences longer than the maximum length of '
	'the estimates; when exhaustive, the chart contains all constituents and edges '
	'that are part of a parse, without duplicates.',
	'All small PCFGs and PLCFRSs (fan-out up to 4), sentences of up to 7 words, '
	'maximum lengths from 1 to 7.',
	'There are no tests for outside estimates.',
	['discodop/estimates.pyx', 'discodop/plcfrs.pyx'], [
		('getpcfgestimates', 'discodop/estimates.pyx'),
		('getestimates', 'discodop/estimates.pyx'),
		('parse', 'discodop/plcfrs.pyx')],
	'differential testing against exact outside probabilities')

P('C36', 'The indexed treebank survives storing, loading, and being extended',
	'After every history of adding trees, saving, loading (read-only, mutable), '
	'and pickling an indexed treebank or its vocabulary, it contains exactly the '
	'trees and sentences that were added, in order, with the right totals, and '
	'an index listing exactly the trees with each production; productions and '
	'labels keep their numbers; a fixed vocabulary recognizes exactly the '
	'productions that have been seen.',
	'All histories of operations on treebanks with (dis)continuous trees.',
	'A test saves and loads a single treebank once.',
	['discodop/containers.pyx'], [('Ctrees', 'discodop/containers.pyx'),
		('Vocabulary', 'discodop/containers.pyx'),
		('FixedVocabulary', 'discodop/containers.pyx')],
	'stateful testing against a reference model')

P('C40', 'The grammar object always represents the rules that were added to it',
	'After every history of adding rules, incrementing counts, switching between '
	'models, masking rules, storing to and loading from the binary format, and '
	'pickling, a grammar has exactly the rules and lexical rules that were added, '
	'with the sum of their counts, weights normalized per left hand side (or the '
	'selected alternative weights), stable rule numbers in order of first '
	'occurrence, and the right labels, tags, words, and fan-outs; it reports '
	'correctly whether it is proper; and charts of the parsers contain exactly '
	'its derivations. A grammar with a mistake (conflicting fan-outs, missing or '
	'malformed fields, weights that are not positive, unknown symbols, start '
	'symbol on right hand side, duplicate words) is refused with ValueError.',
	'All histories on small binarized PCFGs and LCFRSs, given as tuples or in '
	'either text format.',
	'Tests create a few small grammars that are not modified.',
	['discodop/_grammar.pxi'], [('Grammar', 'discodop/_grammar.pxi'),
		('addrules', 'discodop/_grammar.pxi'),
		('switch', 'discodop/_grammar.pxi'),
		('frombinfile', 'discodop/_grammar.pxi')],
	'stateful testing against a reference model; fault injection in grammars')

P('C41', 'The osTAG reduction has the derivations of the tree-adjoining grammar',
	'For every set of weighted initial and auxiliary trees (at most binary '
	'branching), the grammar produced by the osTAG reduction derives exactly the '
	'trees that substitution and adjunction (to non-leaf nodes that are not on '
	'the spine of an auxiliary tree) derive, each with the same probability: '
	'elementary trees compete by relative frequency with weight 1 for not '
	'adjoining at a node; with packed graphs the derivable trees are the same. '
	'Addresses are unique, and removing them gives back the trees. Parsing with '
	'the grammar gives the parse trees and their probabilities. Factoring '
	'fragments at a recursive node gives pairs of initial and auxiliary trees '
	'that give the fragment when adjoined; the grammar induced from a treebank '
	'generates its trees.',
	'All tree-adjoining grammars with few elementary trees, derivations of up to '
	'4 elementary trees, sentences of up to 4 words (7 for induced grammars), '
	'continuous treebanks.',
	'There are no tests of these functions except for two doctests.',
	['discodop/grammar.py', 'discodop/disambiguation.pyx'],
	[('ostagreduction', 'discodop/grammar.py'),
		('SpinedTreeDecorator', 'discodop/grammar.py'),
		('inducetagfromtsg', 'discodop/grammar.py'),
		('removeadjunaries', 'discodop/disambiguation.pyx')],
	'differential testing against enumeration of the derivations of a TAG')
P('C32', 'Treebank transformations annotate as described and are reversible',
	'For every tree, the state splits append exactly the described annotation '
	'to exactly the described labels, changing nothing else, and reversing them '
	'restores the tree. Functions, morphological features and lemmas encoded in '
	'labels or nodes are recovered by the reversal, also from labels alone. '
	'Transformations that change the structure introduce exactly the described '
	'levels, keep all words, tags, links and '
	'unique node ids, and are reversed unless ambiguous. Collapsing labels maps '
	'every non-root phrasal label (including binarized labels) to its '
	'coarse label and reports this mapping; the coarse mappings are partitions. '
	'The relational-realizational transform gives the documented form and is '
	'reversible. The D-level of a tree is the highest level whose condition '
	'holds.',
	'All trees with function tags, morphology, heads; sequences of '
	'transformations for four treebanks; with and without annotations.',
	'Tests apply a few transformations to a sample of 100 trees.',
	['discodop/treebanktransforms.py'], [
		('transform', 'discodop/treebanktransforms.py'),
		('reversetransform', 'discodop/treebanktransforms.py'),
		('collapselabels', 'discodop/treebanktransforms.py'),
		('rrtransform', 'discodop/treebanktransforms.py'),
		('dlevel', 'discodop/treebanktransforms.py')],
	'reference model of each transformation; round trip')
P('C37', 'The parser and experiment commands give the best trees per sentence',
	'For every grammar and list of sentences, "discodop parser --simple" writes, '
	'for each sentence in order, its k most probable derivations (fewer if there '
	'are fewer) in order of probability, with the words of the sentence, root '
	'label, and the right probability; sentences without a parse get one tree. '
	'This holds for both grammar formats, one word per line, sentence ids, given '
	'tags, multiple processes, and words with special characters. For every '
	'treebank and sequence of stages, "discodop runexp" reproduces the selected '
	'gold sentences verbatim, writes trees for these sentences for each stage '
	'without traces of binarization, with the given tags; sentences whose words '
	'and tags occur in the training corpus are parsed; treebank grammars give '
	'most probable tree and its probability (also with filtering by a coarse '
	'grammar); running again with the stored grammars or with "discodop parser" '
	'gives the same trees.',
	'All grammars over a few labels with fan-out up to 3; sentences of up to 5 '
	'words; treebanks of up to 5 trees, 9 combinations of stages.',
	'The tests run a single experiment, and only check that there is a result.',
	['discodop/parser.py', 'discodop/runexp.py'],
	[('Parser', 'discodop/parser.py'), ('startexp', 'discodop/runexp.py'),
		('readgrammars', 'discodop/parser.py'),
		('doparsing', 'discodop/parser.py')],
	'end-to-end differential testing against a reference parser')
