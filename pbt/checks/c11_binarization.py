"""Binarization and related transformations are reversible."""
from collections import Counter, defaultdict
from types import SimpleNamespace
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, HEAD
from discodop.grammar import UniqueIDs
from discodop.treetransforms import (binarize, unbinarize, collapseunary,
		introducepreterminals, handledisc, factorconstituent, addfanoutmarkers,
		removefanoutmarkers, markovthreshold, addbitsets, getyf, getbits,
		canonicalize, treebankfanout, fanout, contsets, binarizetree,
		optimalbinarize)
import gens

NEED = ('bit', )
ASSUMPTIONS = ["labels do not contain '|<', '^<', '+', '_'",
		"head-outward binarization is only used with factor='right' (the "
		'documentation says that the other combination is broken)']

labels = ('S', 'NP', 'VP', 'PP', 'X|Y', 'A-B', '$,', 'A<B>', 'X^', 'N;')
pos = ('DT', 'NN', '$[', 'V|', '-LRB-')
reprod = st.fixed_dictionaries(dict(
	factor=st.sampled_from(['right', 'left']),
	horzmarkov=st.sampled_from([0, 1, 2, 3, 999]),
	vertmarkov=st.sampled_from([0, 1, 2, 3]),
	revhorzmarkov=st.sampled_from([0, 0, 1, 2]),
	leftmostunary=st.booleans(), rightmostunary=st.booleans(),
	artpa=st.booleans()))
options = st.fixed_dictionaries(dict(
	factor=st.sampled_from(['right', 'left']),
	horzmarkov=st.sampled_from([0, 1, 2, 999]),
	vertmarkov=st.sampled_from([0, 1, 2, 3]),
	revhorzmarkov=st.sampled_from([0, 0, 1, 2]),
	leftmostunary=st.booleans(), rightmostunary=st.booleans(),
	artpa=st.booleans(), markhead=st.booleans(), headoutward=st.booleans(),
	tailmarker=st.sampled_from(['', '', '$', 'HEAD']),
	threshold=st.sampled_from([2, 2, 2, 2, 1, 1, 3, 4, 0]),
	filterlabels=st.sampled_from([(), ('NP', 'DT')]),
	dot=st.booleans(), direction=st.booleans(), useids=st.booleans()))


def headed(spec, heads, cls):
	tree = gens.mk(spec, cls)
	for a, b in zip(list(tree.subtrees()), heads):
		if isinstance(a[0], Tree) and b is not None:
			a[b % len(a)].type = HEAD
	return tree


class Ids(dict):
	def __missing__(self, key):
		self[key] = len(self)
		return self[key]


headidx = st.lists(st.none() | st.integers(0, 5), min_size=40, max_size=40)
treespecs = gens.specs(phrasal=labels, pos=pos, maxleaves=9, maxarity=6,
		shuffle=True)


@prop(st.tuples(treespecs, options, headidx, st.sampled_from(
		['Tree', 'ParentedTree'])), quick=4000,
		rule='a constituent is factored')
def reversible(arg):
	"""unbinarize restores any binarized tree, for every combination of
	options; binarized trees have at most two children per node."""
	spec, opts, heads, cls = arg
	opts = dict(opts)
	if opts.pop('useids'):
		opts['ids'] = Ids()
	if opts['headoutward']:
		opts['factor'] = 'right'
	tree = headed(spec, heads, dict(Tree=Tree, ParentedTree=ParentedTree)[cls])
	result = binarize(tree, **opts)
	check(result is tree, 'modifies and returns tree')
	threshold = opts['threshold']
	for a in tree.subtrees():
		check(len(a) <= max(2, threshold), 'too many children: %s', a)
		check(threshold > 0 or len(a) > 1 or '|<' in a.label
				or any(isinstance(b, Tree) and '|<' in b.label for b in a),
				'unary node not factored')
		if len(a) == 2 and threshold <= 1:
			check('|<' in a.label or any(isinstance(b, int) or '|<' in b.label
					for b in a), 'binary node not factored')
	same(sorted(tree.leaves()), sorted(gens.leavesof(spec)), 'leaves')
	factored = str(tree) != gens.strspec(spec)
	result = unbinarize(tree, expandunary=False)
	check(result is tree, 'modifies and returns tree')
	same(gens.unmk(tree), spec, 'restored tree')
	if cls == 'ParentedTree':
		for a in tree.subtrees():
			for n, b in enumerate(a):
				check(isinstance(b, int) or (b.parent is a
						and b.parent_index == n), 'parent')
	return ([('headoutward' if opts['headoutward'] else opts['factor'])]
			+ gens.classify(spec)) if factored else []


def reference(spec, o, heads=None):
	"""Binarize according to documentation.

	:param heads: function that returns the index of the head child of a node,
		or None.
	:returns: tree as spec, and list of the marks of artificial nodes, in
		left to right order."""
	h, v, revh = o['horzmarkov'], o['vertmarkov'], o['revhorzmarkov']
	threshold = o.get('threshold', 2)
	filterlabels = o.get('filterlabels', ())
	labelfun = o.get('labelfun') or (lambda a: a)
	dot, direction = o.get('dot', False), o.get('direction', False)
	headoutward, markhead = o.get('headoutward'), o.get('markhead')
	tailmarker = o.get('tailmarker', '')

	def keep(names):
		return [a for a in names if a.split('/')[0] not in filterlabels]

	def visit(a, ancestors, root):
		if isinstance(a, int):
			return a
		orig = a[0] if v else '_'
		label, parents = a[0], ''
		if v > 1 and not root and not gens.ispre(a):
			parents = '^<%s>' % ','.join(ancestors)
			label += parents
			ancestors = [orig] + ancestors[:v - 2]
			if not o['artpa']:
				parents = ''
		# NB: root is included as ancestor of its children
		kids = [visit(b, ancestors, False) for b in a[1]]
		names = [labelfun(b[0]) for b in a[1]] if not gens.ispre(a) else []
		n = len(kids)
		head = heads(a) if heads and (markhead or headoutward) else None

		def art(info, children, tail=''):
			return ['%s|<%s>%s%s' % (orig, info, parents, tail), children]

		def prefix(right, names=names):
			return (('l:' if right else 'r:') if direction else '') + (
					'' if not markhead or head is None
					else names[head] + ';')

		if n <= threshold:
			return [label, kids]
		if n == 2:
			right = o['factor'] == 'right'
			info = ''
			if names:
				info = prefix(right, [b[0] for b in a[1]]) + ','.join(
						keep(names[:h]))
			if dot:
				info += '.'
			if right:
				return [label, [kids[0], art(info, kids[1:])]]
			return [label, [art(info, kids[:1]), kids[1]]]
		right0 = o['factor'] == 'right'
		if headoutward and head == 0:
			right0 = not right0

		def rest(lo, hi, right, num):
			"""Remaining children lo:hi, after num were generated."""
			# FIXME (documented): context is wrong when direction switches
			stop = n if right or headoutward else hi
			start = lo if right else max(lo, hi - h)
			info = prefix(right)
			if dot:
				info += ','.join(keep(names[:start])) + '.'
			if revh and right:
				info += ','.join(keep(names[max(lo - revh, 0):lo])) + ';'
			elif revh:
				info += ','.join(keep(names[hi:hi + revh])) + ';'
			info += ','.join(keep(names[start:stop])[:h])
			switch = headoutward and num == head
			cur = expand(lo, hi, not right if switch else right, num)
			if switch and direction and num + 1 != n:
				info1 = 'm' + info[1:] if dot else 'm:' + (
						names[head] + ';' if markhead else '')
				# no tail marker, since this does not introduce a symbol
				cur = [art(info1, cur)]
			return art(info, cur, tailmarker if num + 1 == n else '')

		def expand(lo, hi, right, num):
			if hi - lo <= (1 if o['rightmostunary'] else 2):
				return kids[lo:hi]
			elif right:
				return [kids[lo], rest(lo + 1, hi, right, num + 1)]
			return [rest(lo, hi - 1, right, num + 1), kids[hi - 1]]

		result = expand(0, n, right0, 0)
		if o['leftmostunary']:
			start = 0 if right0 else max(0, n - h)
			stop = h if right0 else n
			info = prefix(right0) + ('.' if dot else '') + ','.join(
					keep(names[start:stop]))
			result = [art(info, result)]
		return [label, result]
	return visit(spec, [spec[0] if v else '_'], True)


documented = st.fixed_dictionaries(dict(
	factor=st.sampled_from(['right', 'left']),
	horzmarkov=st.sampled_from([0, 1, 2, 3, 999]),
	vertmarkov=st.sampled_from([0, 1, 2, 3]),
	revhorzmarkov=st.sampled_from([0, 0, 1, 2]),
	leftmostunary=st.booleans(), rightmostunary=st.booleans(),
	artpa=st.booleans(), markhead=st.booleans(), headoutward=st.booleans(),
	tailmarker=st.sampled_from(['', '', '$', 'HEAD']),
	threshold=st.sampled_from([2, 2, 1, 3, 4]),
	filterlabels=st.sampled_from([(), (), ('NP', 'DT'), ('A', 'NN')]),
	labelfun=st.sampled_from([None, None, 'upper', 'first']),
	dot=st.booleans(), direction=st.booleans()))
LABELFUN = {None: None, 'upper': lambda a: a.lower() + 'x',
		'first': lambda a: a[:1]}


def nodeindex(spec, heads):
	"""Assign heads to nodes in the same way as headed()."""
	result, it = {}, iter(heads)

	def visit(a):
		if isinstance(a, int):
			return
		num = next(it, None)
		if not gens.ispre(a):
			result[id(a)] = None if num is None else num % len(a[1])
		for b in a[1]:
			visit(b)
	visit(spec)
	return lambda a: result.get(id(a))


@prop(st.tuples(st.one_of(treespecs, gens.specs(
		phrasal=('S', 'NP', 'A/B', 'A/NN'), pos=('DT', 'NN', 'NN/x'),
		maxleaves=8, maxarity=8)), documented, headidx),
		quick=3000, rule='a constituent has more than two children')
def documented_labels(arg):
	"""The structure and labels of binarized trees follow from the documented
	meaning of the options."""
	spec, opts, heads = arg
	opts = dict(opts, labelfun=LABELFUN[opts['labelfun']])
	if opts['headoutward']:
		opts['factor'] = 'right'
	tree = headed(spec, heads, Tree)
	opts1 = dict(opts)
	if opts['labelfun'] is not None:
		opts1['labelfun'] = lambda node: opts['labelfun'](node.label)
	want = reference(spec, opts, nodeindex(spec, heads))
	tree = binarize(tree, **opts1)
	same(gens.unmk(tree), want, 'binarized tree')
	# numeric identifiers: one-to-one with the original marks
	ids, tree1 = Ids(), headed(spec, heads, Tree)
	binarize(tree1, ids=ids, **opts1)
	names = {}
	for a, b in zip(tree.subtrees(), tree1.subtrees()):
		same([c if isinstance(c, int) else None for c in a],
				[c if isinstance(c, int) else None for c in b], 'ids: structure')
		if '|<' in a.label:
			same(b.label.split('|<')[0], a.label.split('|<')[0], 'label')
			if '|<m' in a.label and opts['direction']:
				continue
			num = b.label[b.label.index('|<') + 2:].rstrip('DAEH$>')
			check(num.isdigit(), 'identifier: %s', b.label)
			mark = a.label[a.label.index('|<') + 1:]
			if opts['tailmarker']:
				same(b.label.endswith(opts['tailmarker']),
						a.label.endswith(opts['tailmarker']), 'tail marker')
				if mark.endswith(opts['tailmarker']):
					mark = mark[:-len(opts['tailmarker'])]
			same(names.setdefault(mark, num), num, 'identifier of %s' % mark)
	same(len(set(names.values())), len(names), 'distinct identifiers')
	result = [opts['factor']] if gens.maxarity(spec) > opts['threshold'] else []
	if result:
		result.extend(a for a in ('headoutward', 'markhead', 'dot', 'direction',
				'tailmarker', 'labelfun') if opts[a])
	return result


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'A/B', 'ADJ'),
		pos=('DT', 'NN', 'NN/x'), maxleaves=8, maxarity=6), documented, headidx,
		st.sampled_from([None, None, (('NP', ), 'ADJ'), (('NN', 'S'), 'A')]),
		st.sampled_from(['default', 'default', 'none', 'optimal',
		'optimalhead'])), quick=800,
		rule='a constituent has more than two children')
def configured(arg):
	"""binarizetree applies the method and each option of a configuration."""
	spec, opts, heads, rr, method = arg
	opts = dict(opts, labelfun=LABELFUN[opts['labelfun']], threshold=2)
	headoutward = opts.pop('headoutward')
	conf = SimpleNamespace(method=method, factor=opts['factor'],
			h=opts['horzmarkov'], v=opts['vertmarkov'],
			revh=opts['revhorzmarkov'], headrules='x' if headoutward else None,
			**{a: opts[a] for a in ('tailmarker', 'leftmostunary',
			'rightmostunary', 'markhead', 'direction', 'dot',
			'filterlabels')})
	if headoutward:
		opts['factor'] = conf.factor = 'right'
	conf.labelfun = opts['labelfun'] and (
			lambda node: opts['labelfun'](node.label))
	if method == 'optimalhead':
		conf.h = conf.h or 1
		conf.v = conf.v or 1
	tree = headed(spec, heads, Tree)
	result = binarizetree(tree, conf, rr and dict(ignorefunctions=rr[0],
			adjunctionlabel=rr[1]))
	if method == 'default':
		opts.update(artpa=True, headoutward=headoutward,
				direction=headoutward and opts['direction'])
		if rr:
			opts['filterlabels'] = rr[0] + (rr[1], )
		want = reference(spec, opts, nodeindex(spec, heads))
	elif method == 'none':
		want = spec
	elif method == 'optimal':
		want = gens.unmk(optimalbinarize(gens.mk(spec, Tree)))
	elif method == 'optimalhead':
		want = gens.unmk(optimalbinarize(gens.mk(spec, Tree), headdriven=True,
				h=conf.h, v=conf.v))
	same(gens.unmk(result), want, 'binarized tree')
	return [method] if gens.maxarity(spec) > 2 else []


@prop(st.tuples(treespecs, st.sampled_from(['up', 'Left', '', None, 'rightleft'
		])), quick=50, rule='always')
def invalid(arg):
	"""An unknown direction of factorization is refused."""
	spec, factor = arg
	tree = gens.mk(spec, Tree)
	raises(ValueError, binarize, tree, factor=factor)
	same(gens.unmk(tree), spec, 'tree after error')
	return True


@prop(st.tuples(st.lists(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('A', 'B'),
		maxleaves=7, maxarity=5), min_size=1, max_size=4), reprod,
		st.sampled_from([2, 2, 3])), quick=1200,
		rule='a constituent has more than two children')
def no_generalization(arg):
	"""With infinite horizontal context, the productions of binarized trees
	generate exactly the original productions (no new generalizations)."""
	specs, opts, threshold = arg
	opts = dict(opts, horzmarkov=999, vertmarkov=max(opts['vertmarkov'], 1),
			threshold=threshold)
	orig, rules = set(), defaultdict(set)
	for spec in specs:
		tree = gens.mk(spec, Tree)
		for a in binarize(tree, **opts).subtrees():
			if isinstance(a[0], Tree):
				rules[a.label].add(tuple(b.label for b in a))
		for a in unbinarize(tree.copy(True), parentchar='\0').subtrees():
			if isinstance(a[0], Tree):
				orig.add((a.label, tuple(b.label for b in a)))

	def expand(label, depth):
		if '|<' not in label:
			return {(label, )}
		check(depth < 8, 'unbounded expansion of %s', label)
		result = set()
		for rhs in rules[label]:
			cur = {()}
			for b in rhs:
				new = expand(b, depth + 1)
				cur = {x + y for x in cur for y in new}
			result |= cur
		return result
	got = set()
	for label in rules:
		if '|<' not in label:
			for rhs in rules[label]:
				cur = {()}
				for b in rhs:
					new = expand(b, 0)
					cur = {x + y for x in cur for y in new}
				got |= {(label, a) for a in cur}
	same(got, orig, 'productions')
	return any(gens.maxarity(a) > 2 for a in specs)


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'VP', 'A-B'), pos=('DT', 'N|'),
		maxleaves=7, shuffle=True), st.booleans(), st.booleans(),
		st.booleans()), quick=1200, rule='tree has unary nodes')
def unaries(arg):
	"""collapseunary removes unary nodes (except preterminals and the root if
	not requested), and unbinarize restores them, also after binarization."""
	spec, collapsepos, collapseroot, bina = arg
	tree = gens.mk(spec, ParentedTree)
	result = collapseunary(tree, collapsepos=collapsepos,
			collapseroot=collapseroot)
	check(result is tree, 'modifies and returns tree')

	def collapse(a, root):
		if gens.ispre(a):
			return a
		label, kids = a
		while len(kids) == 1 and not isinstance(kids[0], int) and (
				collapsepos or not gens.ispre(kids[0])) and (
				collapseroot or not root):
			label, kids = label + '+' + kids[0][0], kids[0][1]
		return [label, [b if isinstance(b, int) else collapse(b, False)
				for b in kids]]
	same(gens.unmk(tree), collapse(spec, True), 'collapsed')
	other = collapseunary(gens.mk(spec, Tree), collapsepos=collapsepos,
			collapseroot=collapseroot, joinchar='=')
	same(gens.strspec(gens.unmk(other)), gens.strspec(collapse(spec, True)
			).replace('+', '='), 'joinchar')
	if bina:
		binarize(tree, horzmarkov=1)
	unbinarize(tree)
	same(gens.unmk(tree), spec, 'restored tree')
	return gens.hasunary(spec)


@prop(st.tuples(gens.specs(phrasal=labels + ('NP_X', 'V_', '_', 'a_b_c', 'X2', 'Y_2A', '3'), pos=pos
		+ ('N_rel', ), maxleaves=9), st.sampled_from(['Tree', 'ParentedTree'])), quick=1000,
		rule='discontinuous tree')
def fanout_markers(arg):
	"""Exactly the discontinuous nodes are marked with their number of
	continuous components; removing markers restores the labels."""
	spec, cls = arg
	tree = gens.mk(spec, dict(Tree=Tree, ParentedTree=ParentedTree)[cls])
	check(addfanoutmarkers(tree) is tree, 'returns tree')

	def visit(a):
		if isinstance(a, int):
			return a
		n = gens.blocks(gens.leavesof(a))
		return [a[0] if n == 1 else '%s_%d' % (a[0], n),
				[visit(b) for b in a[1]]]
	same(gens.unmk(tree), visit(spec), 'markers')
	addfanoutmarkers(tree)
	same(gens.unmk(tree), visit(spec), 'idempotent')
	check(removefanoutmarkers(tree) is tree, 'returns tree')
	same(gens.unmk(tree), spec, 'restored')
	same(treebankfanout([gens.mk(spec, Tree), Tree('(X (Y 0))')])[0], max(
			[gens.blocks(gens.leavesof(a)) for a in gens.nodesof(spec)
				if len(a[1]) > 1] or [1]), 'treebankfanout')
	return gens.isdisc(spec)


@prop(st.tuples(gens.specs(phrasal=labels, pos=pos, maxleaves=8, preterm=False,
		maxarity=6), st.sampled_from(['words', 'none', 'ids'])), quick=800,
		rule='terminals with siblings')
def preterminals(arg):
	"""introducepreterminals adds preterminals exactly above terminals with
	siblings, leaving the rest of the tree as is."""
	spec, mode = arg
	n = len(gens.leavesof(spec))
	sent = [None if mode == 'none' else 'w%d' % a for a in range(n)]
	tree = gens.mk(spec, ParentedTree)
	introducepreterminals(tree, sent,
			ids=iter(range(100, 200)) if mode == 'ids' else None)
	used = []

	def compare(a, b):
		if isinstance(a, int):
			return same(b, a, 'terminal')
		same(b.label, a[0], 'label')
		same(len(b), len(a[1]), 'number of children')
		for x, y in zip(a[1], b):
			if isinstance(x, int) and len(a[1]) > 1:
				same(list(y), [x], 'new preterminal')
				label, _, rest = y.label.rpartition('/')
				same(label, a[0], 'label of new preterminal')
				used.append(rest)
				if mode == 'words':
					same(rest, 'w%d' % x, 'word in label')
				elif mode == 'none':
					same(rest, '', 'empty word in label')
			else:
				compare(x, y)
	compare(spec, tree)
	if mode == 'ids':
		same(sorted(used), [str(100 + a) for a in range(len(used))], 'ids')
	return bool(used)


@prop(gens.specs(phrasal=('S', 'NP'), pos=('A', 'B', 'C'), minleaves=2,
		maxleaves=10, preterm=False, maxarity=5).map(lambda a: a), quick=600,
		rule='node with multiple terminals')
def frontier_disc(arg):
	"""handledisc factors every node dominating only multiple terminals, such
	that every node has at most one terminal; unbinarize restores it."""
	spec = arg

	def flatten(a):  # make nodes homogeneous
		if any(isinstance(b, int) for b in a[1]):
			return [a[0], sorted(gens.leavesof(a))]
		return [a[0], [flatten(b) for b in a[1]]]
	spec = flatten(spec)
	tree = handledisc(gens.mk(spec, ParentedTree))
	for a in tree.subtrees():
		check(sum(1 for b in a if isinstance(b, int)) <= 1, 'terminals')
		if isinstance(a[0], int) and len(a) > 1:
			check(len(a) == 2 and '|<>' in a[1].label, 'shape')
	unbinarize(tree)
	same(gens.unmk(tree), spec, 'restored')
	return any(len(a[1]) > 1 and gens.ispre(a) for a in gens.nodesof(spec))


@prop(st.tuples(st.lists(gens.specs(phrasal=('S', 'NP', 'X<Y>'),
		pos=('A', 'B', 'C'), maxleaves=8, maxarity=6), min_size=1, max_size=5),
		st.integers(1, 4), st.integers(0, 2), st.integers(1, 2), st.booleans(),
		st.booleans(), st.sampled_from(['', '$']), st.integers(1, 4), headidx),
		quick=900, rule='some labels are rare')
def markov_threshold(arg):
	"""Exactly the labels below the frequency threshold get the reduced
	horizontal and vertical context; unbinarize still restores the trees."""
	specs, n, h, v, markhead, rightmostunary, tail, vert, heads = arg
	trees = [binarize(headed(a, heads, Tree), horzmarkov=3, vertmarkov=vert,
			markhead=markhead, rightmostunary=rightmostunary,
			tailmarker=tail) for a in specs]
	before = [[a.label for a in tree.subtrees()] for tree in trees]
	freq = Counter(a for b in before for a in b)
	msg = markovthreshold(trees, n, h, v)
	after = [[a.label for a in tree.subtrees()] for tree in trees]
	reduced = {}
	for x, y in zip(sum(before, []), sum(after, [])):
		want = x
		if '|<' in x and freq[x] < n:
			cat, rest = x.split('|<')
			rest, parents = (rest.split('>^<') + [None])[:2]
			end = ''
			if parents is None:
				rest, end = rest.rsplit('>', 1)
			else:
				parents, end = parents.rsplit('>', 1)
			head, sep, rest = rest.rpartition(';')
			want = '%s|<%s,>%s%s' % (cat, head + sep + ','.join(
					rest.split(',')[:h]), '' if parents is None else
					'^<%s>' % ','.join(parents.split(',')[:v]), end)
			reduced[x] = want
		same(y, want, 'new label for %s' % x)
	check('# labels before %d, after %d.' % (len(reduced),
			len(set(reduced.values()))) in msg, 'message: %s', msg)
	same([gens.unmk(unbinarize(tree)) for tree in trees], specs, 'restored')
	return (['reduced'] + ['parents'] * any('^' in a for a in reduced)
			) if reduced else []


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('A', 'B', 'C'),
		minleaves=2, maxleaves=9, maxarity=7, shuffle=True),
		st.sampled_from(['right', 'left']), st.sampled_from([1, 2, 3, 999]),
		st.booleans(), st.sampled_from([(), ('NP', )]),
		st.sampled_from([0] * 9 + [1, 64, 130]), st.integers(1, 8)), quick=1500,
		rule='constituent with more than two children')
def factor_constituent(arg):
	"""factorconstituent binarizes a single constituent: documented labels,
	fanout, yield functions, and bitsets; children are left alone."""
	spec, factor, h, markfanout, filterlabels, gap, at = arg
	spec = gens.gap(spec, at, gap)
	tree = addbitsets(gens.mk(spec, Tree))
	for markyf in (False, True):
		result = factorconstituent(tree, factor=factor, h=h,
				markfanout=markfanout, markyf=markyf, filterlabels=filterlabels)
		if len(tree) <= 2:
			check(result is tree, 'not factored')
			continue
		kids = list(tree)
		names = [a.label for a in kids]

		def build(lo, hi):
			"""Artificial node over kids[lo:hi]"""
			if hi - lo == 1:
				return gens.unmk(kids[lo])
			elif factor == 'right':
				key = [a for a in names[lo:hi][:h] if a not in filterlabels]
				parts = [[lo], range(lo + 1, hi)]
				children = [gens.unmk(kids[lo]), build(lo + 1, hi)]
			else:
				key = [a for a in names[max(lo, hi - h):hi]
						if a not in filterlabels]
				parts = [range(lo, hi - 1), [hi - 1]]
				children = [build(lo, hi - 1), gens.unmk(kids[hi - 1])]
			owner = {b: str(n) for n, part in enumerate(parts) for a in part
					for b in kids[a].leaves()}
			yf, prev = ';', ','
			for a in range(max(owner) + 1):
				cur = owner.get(a, ',')
				if cur != prev:
					yf += cur
				prev = cur
			fo = gens.blocks(owner)
			return ['%s|<%s%s>%s' % (spec[0], ','.join(key), yf if markyf
					else '', '_%d' % fo if markfanout and fo > 1 else ''),
					children]
		n = len(kids)
		want = [spec[0], [gens.unmk(kids[0]), build(1, n)] if factor == 'right'
				else [build(0, n - 1), gens.unmk(kids[-1])]]
		same(gens.unmk(result), want, 'result')
		for a in result.subtrees():
			same(list(getbits(a.bitset)), sorted(a.leaves()), 'bitset')
			same(fanout(a), gens.blocks(a.leaves()), 'fanout')
		same(gens.unmk(unbinarize(Tree.convert(factorconstituent(tree,
				factor=factor, h=h)))), spec, 'restored')
	raises(ValueError, factorconstituent, addbitsets(
			'(A (B 0) (C 1) (D 2))'), factor='x')
	return len(spec[1]) > 2


@st.composite
def constituents(draw):
	"""A constituent with several (discontinuous) children."""
	labels = draw(st.lists(st.sampled_from('ABC'), min_size=2, max_size=6))
	order = draw(st.sampled_from([0, 0, 1]) | st.integers(0, 5))
	extra = draw(st.lists(st.integers(0, len(labels) - 1), max_size=order))
	kids = [[] for _ in labels]
	for n, a in enumerate(list(range(len(labels))) + extra):
		kids[a].append(n)
	return [draw(st.sampled_from(['S', 'NP'])), [[a, [['t', [c]] for c in b]]
			for a, b in zip(labels, kids)]]


@prop(st.tuples(st.lists(constituents(), min_size=1, max_size=5),
		st.sampled_from(['right', 'left']), st.sampled_from([1, 2, 3, 999]),
		st.sampled_from([1, 1, 2, 2, 2, 3, 4]), st.booleans(), st.booleans(),
		st.sampled_from(['|', '+', '^^']), st.booleans(),
		st.sampled_from([None, lambda a: a.label.lower() + 'x'])),
		quick=900, rule='a label is re-used')
def factor_options(arg):
	"""factorconstituent with threshold, separator, label function, and IDs: the
	same structure; the first ID of a constituent is unique, the others
	are the same exactly for the same combination of labels."""
	specs, factor, h, threshold, markyf, markfanout, sep, useids, fun = arg
	ids = UniqueIDs('x') if useids else None
	kw = dict(factor=factor, h=h, markyf=markyf, markfanout=markfanout)
	keys, seen, firsts, reused = {}, {}, set(), False
	for spec in specs:
		tree = addbitsets(gens.mk(spec, Tree))
		before = gens.unmk(tree)
		extra = dict(labelfun=fun) if fun else {}
		result = factorconstituent(tree, sep=sep, threshold=threshold,
				ids=ids, **kw, **extra)
		same(gens.unmk(tree), before, 'argument')
		if len(tree) <= threshold:
			check(result is tree, 'not factored')
			continue
		elif len(tree) == 2:
			same(len(result), 1, 'artificial unary node')
			same([gens.unmk(a) for a in result[0]],
					[gens.unmk(a) for a in tree], 'children')
			key = ','.join((fun or (lambda a: a.label))(a) for a in tree[:h])
			plain = [(result[0].label, key)]
			if markyf:
				key += getyf(tree[0], tree[1])
			if not useids:
				same(result[0].label, '%s%s<%s>' % (spec[0], sep, key),
						'label')
				continue
		else:
			# compare to result without options
			if fun:
				tree2 = addbitsets(gens.mk([spec[0], [[fun(a), list(b[1])]
						for a, b in zip(tree, spec[1])]], Tree))
			else:
				tree2 = tree
			want = factorconstituent(tree2, **kw)
			kids = {frozenset(a.leaves()) for a in tree}

			def artificial(node):
				return [b for a in node if frozenset(a.leaves()) not in kids
						for b in [a] + artificial(a)]
			sub1, sub2 = artificial(result), artificial(want)
			same([sorted(a.leaves()) for a in sub1],
					[sorted(a.leaves()) for a in sub2], 'structure')
			same([a.bitset for a in sub1], [a.bitset for a in sub2], 'bitset')
			plain = [(a.label, b.label) for a, b in zip(sub1, sub2)]
			if not useids:
				same([a for a, _ in plain], [spec[0] + sep + b[len(spec[0])
						+ 1:] for _, b in plain], 'labels')
				continue
		for n, (a, b) in enumerate(plain):
			start = '%s%s<' % (spec[0], sep)
			check(a.startswith(start), 'label: %s', a)
			idx, rest = a[len(start):].split('>')
			if n == 0:
				check(idx not in seen and idx not in firsts,
						'first ID is not unique: %s', a)
				firsts.add(idx)
			else:
				check(idx not in firsts, 'ID was used as first ID: %s', a)
				b = b[len(spec[0]) + 2:].rsplit('>', 1)[0]
				reused = reused or idx in seen
				same(seen.setdefault(idx, b), b, 'combination for ID')
				same(keys.setdefault(b, idx), idx, 'ID for combination')
			check(rest == '' or markfanout, 'suffix')
	return reused


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('DT', 'NN'),
		maxleaves=8, maxarity=6, shuffle=True), reprod,
		st.sampled_from(['/', '&', '@@']), st.sampled_from(['~', '%', '@'])),
		quick=600, rule='more than two children')
def separators(arg):
	"""Separators only occur in labels, and the same separators restore the
	tree; others do not."""
	spec, opts, child, par = arg
	tree = binarize(gens.mk(spec, ParentedTree), childchar=child,
			parentchar=par, **opts)
	want = binarize(gens.mk(spec, ParentedTree), **opts)
	for a, b in zip(list(tree.subtrees()), list(want.subtrees())):
		same(a.label, b.label.replace('|<', child + '<').replace('^<',
				par + '<'), 'label')
		same(sorted(a.leaves()), sorted(b.leaves()), 'structure')
	before = gens.unmk(tree)
	same(gens.unmk(unbinarize(tree)), before, 'other separators')
	same(gens.canonspec(gens.unmk(unbinarize(tree, childchar=child,
			parentchar=par))), gens.canonspec(spec), 'restored')
	tree = collapseunary(gens.mk(spec, ParentedTree), joinchar=child[0],
			collapsepos=True, collapseroot=True)
	check(all(len(a) > 1 or isinstance(a[0], int) for a in tree.subtrees()),
			'unary nodes')
	same(gens.unmk(unbinarize(tree, unarychar=child[0])), spec, 'restored')
	return any(len(a[1]) > 2 for a in gens.nodesof(spec))
