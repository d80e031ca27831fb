"""Optimal binarizations: optimal by brute force, and reversible."""
from functools import lru_cache
from itertools import permutations
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree
from discodop.treetransforms import (optimalbinarize, minimalbinarization,
		complexity, complexityfanout, fanoutcomplexity, fanout, addbitsets,
		unbinarize, binarize)
import gens

NEED = ('bit', )
ASSUMPTIONS = ["labels do not contain '|<', '^<'",
		'the sum of scores is only used to break ties, its optimality is '
		'not claimed']

SCORES = dict(complexityfanout=(complexityfanout, lambda c, f: (c, f)),
		fanoutcomplexity=(fanoutcomplexity, lambda c, f: (f, c)))


@st.composite
def productions(draw, maxkids=6):
	"""A production: tree with children dominating preterminals."""
	k = draw(st.integers(2, maxkids))
	n = draw(st.integers(k, k + 6))
	owner = list(range(k)) + [draw(st.integers(0, k - 1))
			for _ in range(n - k)]
	owner = draw(st.permutations(owner))
	# possibly, some terminals belong to neither
	skip = draw(st.sets(st.integers(0, n - 1), max_size=2))
	kids = [[] for _ in range(k)]
	for n, a in enumerate(owner):
		if n not in skip or owner.count(a) <= 1 + sum(
				1 for b in skip if owner[b] == a):
			kids[a].append(n)
	kids.sort()
	labels = draw(st.lists(st.sampled_from(['A', 'B', 'C']), min_size=k,
			max_size=k))
	return ['X', [[a, [['t', [c]] for c in b]] for a, b in zip(labels, kids)]]


def fo(leaves):
	return gens.blocks(leaves)


def score(fun, kids):
	"""Score of production with given (yields of) children."""
	f = fo(frozenset().union(*kids))
	return fun(f + sum(map(fo, kids)), f)


def leafscore(fun, kid):
	"""Score of a child: constituent over preterminals"""
	f = fo(kid)
	return fun(f + len(kid), f)


def best(yields, fun, head):
	"""Minimal maximum score of any binarization by brute force."""
	yields = [frozenset(a) for a in yields]
	floor = max(leafscore(fun, a) for a in yields)
	if head is not None:
		rest = yields[:head] + yields[head + 1:]
		result = None
		for order in permutations(rest):
			cur, worst = yields[head], floor
			for a in order:
				worst = max(worst, score(fun, [a, cur]))
				cur = a | cur
			if result is None or worst < result:
				result = worst
		return result

	@lru_cache(None)
	def opt(sub):
		if len(sub) == 1:
			return floor
		items = sorted(sub)
		result = None
		for mask in range(1, 1 << (len(items) - 1)):
			left = frozenset(a for n, a in enumerate(items) if mask >> n & 1)
			right = sub - left
			cur = max(opt(left), opt(right), score(fun, [
					frozenset().union(*(yields[a] for a in left)),
					frozenset().union(*(yields[a] for a in right))]))
			if result is None or cur < result:
				result = cur
		return result
	return opt(frozenset(range(len(yields))))


def binarizednodes(tree, kids):
	"""Nodes of binarized production, given set of original children."""
	result, agenda = [], [tree]
	while agenda:
		node = agenda.pop()
		result.append(node)
		if frozenset(node.leaves()) not in kids:
			agenda.extend(node)
	return result


def verify(result, spec, fun, head):
	yields = [frozenset(gens.leavesof(a)) for a in spec[1]]
	nodes = binarizednodes(result, set(yields))
	inner = [a for a in nodes if frozenset(a.leaves()) not in yields]
	same(len(inner), len(yields) - 1, 'number of productions')
	for a in inner:
		same(len(a), 2, 'binary')
	got = max([score(fun, [frozenset(b.leaves()) for b in a]) for a in inner]
			+ [leafscore(fun, a) for a in yields])
	same(got, best(yields, fun, head), 'score of binarization')


def headlabels(node, spec, hd, h, suffix='', sep='|'):
	"""Labels of head-driven binarization: siblings in reverse order of being
	added, the head being last."""
	names = {frozenset(gens.leavesof(a)): a[0] for a in spec[1]}

	def visit(a):
		cur = frozenset(a.leaves())
		if cur in names:
			check(a.label.split('^')[0] == names[cur], 'label of child')
			return cur == hd, [a.label]
		(ishead1, left), (ishead2, right) = map(visit, a)
		check(ishead1 != ishead2, 'not head driven')
		if ishead1:
			left, right = right, left
		if a is not node:
			same(a.label, '%s%s<%s>%s' % (node.label, sep,
					','.join((left + right)[:h]), suffix), 'label')
		return True, left + right
	visit(node)


def defaultlabels(node, spec, h, sep='|'):
	"""Labels of right-factored binarization of continuous production."""
	labels = [b.label for b in children(node, spec)]
	cur = node
	for n in range(1, len(labels) - 1):
		same(cur[0].label, labels[n - 1], 'left child')
		cur = cur[1]
		same(cur.label, '%s%s<%s>' % (node.label, sep, ','.join(
				labels[n:n + h])), 'label')


def children(node, spec):
	"""Nodes for the original children of a constituent."""
	kids = {frozenset(gens.leavesof(a)): n for n, a in enumerate(spec[1])}
	agenda, result = list(node), [None] * len(kids)
	while agenda:
		a = agenda.pop()
		x = frozenset(a.leaves())
		if x in kids:
			result[kids[x]] = a
		else:
			agenda.extend(a)
	return result


@prop(st.tuples(productions(), st.sampled_from(sorted(SCORES)),
		st.none() | st.integers(0, 5), st.sampled_from([1, 2, 999]),
		st.sampled_from(['|', '|', '!']), st.sampled_from([0] * 7 + [60, 130]),
		st.integers(1, 9)), quick=1500, rule='more than two children, some discontinuous')
def optimal(arg):
	"""No binarization of a production (or none that adds one child at a time
	to the head) has a better maximum score than the one that is returned."""
	spec, name, head, h, sep, gap, at = arg
	spec = gens.gap(spec, at, gap)
	if head is not None:
		head %= len(spec[1])
	func, fun = SCORES[name]
	tree = addbitsets(gens.mk(spec, Tree))
	for a in tree.subtrees():  # functions agree with their definition
		kids = [frozenset([b] if isinstance(b, int) else b.leaves())
				for b in a]
		same(fanout(a), fo(a.leaves()), 'fanout')
		same(func(a), score(fun, kids), name)
		same(complexity(a), fo(a.leaves()) + sum(map(fo, kids)), 'complexity')
	result = minimalbinarization(tree, func, sep=sep, head=head, h=h)
	verify(result, spec, fun, head)
	same(result.label, spec[0], 'label of root')
	same(gens.canonspec(gens.unmk(unbinarize(Tree.convert(result),
			childchar=sep))), gens.canonspec(spec), 'restored')
	kids = {frozenset(gens.leavesof(a)) for a in spec[1]}
	for a in result.subtrees():
		same(a.bitset, sum(1 << b for b in a.leaves()), 'bitset')
	optimized = any(fo(gens.leavesof(a)) > 1 for a in [spec] + spec[1])
	if not optimized:  # right-factored by default
		if len(spec[1]) > 2:
			defaultlabels(result, spec, h, sep)
	elif head is not None:
		hd = set(gens.leavesof(spec[1][head]))
		for a in binarizednodes(result, kids):
			if frozenset(a.leaves()) not in kids:
				check(sum(1 for b in a if set(b.leaves()) == hd
						or not frozenset(b.leaves()) in kids) == 1,
						'not head driven')
		headlabels(result, spec, hd, h, sep=sep)
	elif len(spec[1]) > 2:
		# label lists children of artificial node
		names = {frozenset(gens.leavesof(a)): a[0] for a in spec[1]}
		for a in binarizednodes(result, kids)[1:]:
			if frozenset(a.leaves()) not in kids:
				want = [b[0] for b in spec[1] if set(gens.leavesof(b))
						<= set(a.leaves())]
				same(a.label, '%s%s<%s>' % (spec[0], sep, ','.join(want)),
						'label')
	return len(spec[1]) > 2 and any(fo(gens.leavesof(a)) > 1
			for a in spec[1])


@prop(st.tuples(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('A', 'B'),
		minleaves=3, maxleaves=12, maxarity=6, shuffle=True)
		| productions().map(lambda a: ['ROOT', [a]]),
		st.sampled_from([(False, None), (False, None), (True, 1), (True, 2),
			(True, None)]), st.integers(1, 3), st.sampled_from(
			sorted(SCORES) + [None]), st.sampled_from(['|', '|', '!'])),
		quick=2500,
		rule='a discontinuous constituent with more than two children')
def whole_trees(arg):
	"""optimalbinarize optimizes every production of the tree, annotates
	parents, leaves its input alone, and can be reversed."""
	spec, (headdriven, h), v, name, sep = arg
	func, fun = SCORES[name or 'complexityfanout']
	tree = gens.mk(spec, Tree)
	result = optimalbinarize(tree, sep=sep, headdriven=headdriven, h=h, v=v,
			fun=func if name else None)
	if h is None:  # children are put in canonical order
		orig, spec = spec, gens.canonspec(spec)
	else:
		orig = spec
	same(gens.unmk(tree), orig, 'argument was modified')
	for a in result.subtrees():
		check(len(a) <= 2, 'not binary')
	same(gens.canonspec(gens.unmk(unbinarize(Tree.convert(result),
			childchar=sep))), gens.canonspec(spec), 'restored')
	parents = {}

	def ancestry(a, ancestors):
		if not isinstance(a, int):
			parents[a[0], frozenset(gens.leavesof(a))] = ancestors
			for b in a[1]:
				ancestry(b, [a[0]] + ancestors)
	ancestry(spec, [])
	nodes, hit = {}, False
	for a in result.subtrees():
		if sep + '<' not in a.label:
			nodes[a.label.split('^')[0], frozenset(a.leaves())] = a
	for a in gens.nodesof(spec):
		if gens.ispre(a):
			continue
		node = nodes[a[0], frozenset(gens.leavesof(a))]
		yields = [frozenset(gens.leavesof(b)) for b in a[1]]
		if len(yields) <= 2 or all(fo(b) == 1
				for b in yields + [gens.leavesof(a)]):
			if len(yields) > 2:
				defaultlabels(node, a, h or 999, sep)
			continue  # continuous productions are not optimized
		kids = set(yields)
		inner = [b for b in binarizednodes(node, kids)
				if frozenset(b.leaves()) not in kids] if len(
				yields) > 1 else []
		got = max(score(fun, [frozenset(c.leaves()) for c in b])
				for b in inner)
		floor = max(fun(fo(b) + len(x[1]) if gens.ispre(x) else
				fo(b) + sum(fo(gens.leavesof(c)) for c in x[1]), fo(b))
				for b, x in zip(yields, a[1]))
		# scores of children (with their own binarizations) are constant
		floor = max(floor, max(max(score(fun, [frozenset(
				[c] if isinstance(c, int) else c.leaves()) for c in b])
				for b in node.subtrees() if frozenset(b.leaves()) == y)
				for y in yields))
		want = bestinner(yields, fun, len(yields) - 1 if headdriven else None)
		if headdriven:
			ancestors = parents[a[0], frozenset(gens.leavesof(a))]
			headlabels(node, a, yields[-1], h or 999, '^<%s>' % ','.join(
					ancestors[:v - 1]) if v > 1 else '', sep)
		elif len(yields) > 2:
			order = [b.label for b in children(node, a)]
			ancestors = parents[a[0], frozenset(gens.leavesof(a))]
			for b in inner:
				if b is not node:
					same(b.label, '%s%s<%s>%s' % (node.label, sep, ','.join(
							x for x, y in zip(order, yields)
							if y <= set(b.leaves())), '^<%s>' % ','.join(
							ancestors[:v - 1]) if v > 1 else ''), 'label')
		check(max(got, floor) <= max(want, floor),
				'%s: score %s but optimum is %s', a, got, want)
		hit = hit or fo(gens.leavesof(a)) > 1
	# parent annotation
	def visit(a, ancestors):
		if isinstance(a, int):
			return
		suffix = '^<%s>' % ','.join(ancestors[:v - 1]) if v > 1 else ''
		expected.append((a[0] + suffix, sorted(gens.leavesof(a))))
		for b in a[1]:
			visit(b, [a[0]] + ancestors)
	expected = []
	visit(spec, [])
	same(sorted((a.label, sorted(a.leaves())) for a in result.subtrees()
			if sep + '<' not in a.label), sorted(expected),
			'parent annotation')
	return hit


def bestinner(yields, fun, head):
	"""As best(), but scores of children are not taken into account."""
	yields = [frozenset(a) for a in yields]
	if head is not None:
		result = None
		for order in permutations(yields[:head] + yields[head + 1:]):
			cur, worst = yields[head], (0, 0)
			for a in order:
				worst = max(worst, score(fun, [a, cur]))
				cur = a | cur
			if result is None or worst < result:
				result = worst
		return result

	@lru_cache(None)
	def opt(sub):
		if len(sub) == 1:
			return (0, 0)
		items = sorted(sub)
		result = None
		for mask in range(1, 1 << (len(items) - 1)):
			left = frozenset(a for n, a in enumerate(items) if mask >> n & 1)
			right = sub - left
			cur = max(opt(left), opt(right), score(fun, [
					frozenset().union(*(yields[a] for a in left)),
					frozenset().union(*(yields[a] for a in right))]))
			if result is None or cur < result:
				result = cur
		return result
	return opt(frozenset(range(len(yields))))
