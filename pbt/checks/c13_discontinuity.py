"""Transformations of discontinuous trees to continuous trees."""
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, HEAD
from discodop.treetransforms import (splitdiscnodes, mergediscnodes,
		raisediscnodes, canonicallyorderedtree, canonicalize, contsets)
import gens

NEED = ('bit', 'containers')
ASSUMPTIONS = ["labels do not contain '*'",
		'merging is only required to restore trees for which the labels '
		'identify the components that belong together']

CLASSES = dict(Tree=Tree, ParentedTree=ParentedTree)
SPECS = dict(phrasal=('S', 'NP', 'VP', 'X_2', 'A-B'), pos=('N', 'V', '$,'),
		maxleaves=9, maxarity=5, shuffle=True)
heads = st.lists(st.integers(0, 5), min_size=40, max_size=40)


def runs(kids):
	"""Group nodes in contiguous runs."""
	kids = sorted(kids, key=lambda a: min(gens.leavesof(a)))
	result = []
	end = None
	for a in kids:
		leaves = gens.leavesof(a)
		if end is None or min(leaves) != end + 1:
			result.append([])
		result[-1].append(a)
		end = max(leaves)
	return result


def split(spec, markorigin):
	"""Continuous components of tree."""
	if gens.ispre(spec):
		return [spec]
	kids = [b for a in spec[1] for b in split(a, markorigin)]
	parts = runs(kids)
	if len(parts) == 1:
		return [[spec[0], parts[0]]]
	return [['%s*%s' % (spec[0], n if markorigin else ''), a]
			for n, a in enumerate(parts)]


def ambiguous(spec, markorigin):
	"""Whether merging may combine components of different nodes."""
	for a in gens.nodesof(spec):
		if gens.ispre(a):
			continue
		disc = {}
		for b in a[1]:
			if gens.blocks(gens.leavesof(b)) > 1:
				disc.setdefault(b[0], []).append([min(gens.leavesof(['', c]))
						for c in runs([['', [x]] for x in gens.leavesof(b)])])
		for group in disc.values():
			if len(group) == 1:
				continue
			if not markorigin:
				return True
			group.sort()
			# n-th components should be in the same order as first components
			for n in range(max(map(len, group))):
				cur = [b[n] for b in group if n < len(b)]
				if cur != sorted(cur):
					return True
			# nodes with less components should not precede
			if [len(b) for b in group] != sorted([len(b) for b in group],
					reverse=True) and len({len(b) for b in group}) > 1:
				return True
	return False


@prop(st.tuples(gens.specs(**SPECS), heads, st.booleans(),
		st.sampled_from(sorted(CLASSES))), quick=3000,
		rule='discontinuous tree')
def split_merge(arg):
	"""Splitting gives the continuous components of each node, and merging
	restores the original tree with its heads and annotation."""
	spec, headidx, markorigin, cls = arg
	tree = gens.mk(spec, CLASSES[cls])
	for a, b in zip(list(tree.subtrees()), headidx):
		if isinstance(a[0], Tree):
			a[b % len(a)].type = HEAD
			a.source = ['x', str(b)]
	before = [(a.label, sorted(a.leaves()), a.type, a.source)
			for a in tree.subtrees()]
	result = splitdiscnodes(tree, markorigin)
	same(gens.unmk(result), split(spec, markorigin)[0], 'split tree')
	# annotation of parts is that of the original node
	annot = {}
	for a, b, _, d in before:
		annot.setdefault(a, []).append((set(b), d))
	for a in result.subtrees():
		orig = a.label.split('*')[0]
		check(any(b >= set(a.leaves()) and a.source == c
				for b, c in annot[orig]), 'annotation %s of %s', a.source, a)
	# head of part with head is marked
	for a in result.subtrees():
		if isinstance(a[0], Tree):
			check(sum(1 for b in a if b.type == HEAD) <= 1, 'multiple heads')
			if '*' not in a.label:
				check(any(b.type == HEAD for b in a), 'head is lost: %s', a)
	if ambiguous(spec, markorigin):
		mergediscnodes(result)
		same(sorted(result.leaves()), sorted(gens.leavesof(spec)), 'leaves')
		return ['ambiguous']
	result = canonicalize(mergediscnodes(result))
	same(gens.unmk(result), gens.canonspec(spec), 'merged tree')
	key = lambda a: (a[1], a[0], str(a[2:]))
	same(sorted([(a.label, sorted(a.leaves()), a.type, a.source)
			for a in result.subtrees()], key=key), sorted(before, key=key),
			'annotation')
	if cls == 'ParentedTree':
		for a in result.subtrees():
			for n, b in enumerate(a):
				check(isinstance(b, int) or (b.parent is a
						and b.parent_index == n), 'parent')
	return ['merged', cls] if gens.isdisc(spec) else []


@prop(st.tuples(gens.specs(**SPECS), heads, st.sampled_from(sorted(CLASSES))),
		quick=1500, rule='discontinuous tree')
def raise_disc(arg):
	"""Each discontinuous node keeps the component with its lexical head;
	the children of its other components are raised."""
	spec, headidx, cls = arg
	tree = gens.mk(spec, CLASSES[cls])
	idx = {}
	for x, a, b in zip(gens.nodesof(spec), list(tree.subtrees()), headidx):
		if isinstance(a[0], Tree):
			a[b % len(a)].type = HEAD
			idx[id(x)] = b % len(a)

	def lexhead(a):
		return a[1][0] if gens.ispre(a) else lexhead(a[1][idx[id(a)]])

	def pieces(a):
		"""Split only."""
		if gens.ispre(a):
			return [(a[0], a[1], True)]
		kids = [b for c in a[1] for b in pieces(c)]
		groups = runs([[x, y, z] for x, y, z in kids])
		return [(a[0], b, len(groups) == 1
				or lexhead(a) in [d for c in b for d in leaves(c)])
				for b in groups]

	def leaves(a):
		return gens.leavesof(a[:2])

	def dissolve(a):
		if isinstance(a[1][0], int):
			return [[a[0], a[1]]]
		kids = [b for c in a[1] for b in dissolve(c)]
		return [[a[0], kids]] if a[2] else kids
	want = dissolve(pieces(spec)[0])
	result = raisediscnodes(tree)
	same([gens.unmk(result)], want, 'raised')
	check(not gens.isdisc(gens.unmk(result)), 'still discontinuous')
	return gens.isdisc(spec)


@prop(st.tuples(gens.specs(**SPECS), heads, st.integers(0, 30)), quick=200,
		rule='missing head')
def raise_without_head(arg):
	"""A tree with a constituent without head is refused."""
	spec, headidx, skip = arg
	tree = gens.mk(spec, ParentedTree)
	nodes = [a for a in tree.subtrees() if isinstance(a[0], Tree)]
	for n, (a, b) in enumerate(zip(nodes, headidx)):
		if n != skip % len(nodes):
			a[b % len(a)].type = HEAD
	raises(ValueError, raisediscnodes, tree)
	same(gens.unmk(tree), spec, 'modified')
	return True


@prop(gens.treesents(**SPECS), quick=800, rule='discontinuous tree')
def reordered(arg):
	"""canonicallyorderedtree returns the same tree over a permutation of the
	sentence, such that it is continuous and in order."""
	spec, sent = arg
	sent = ['%s%d' % (a, n) for n, a in enumerate(sent)]
	newsent = sent[:]
	result = gens.unmk(canonicallyorderedtree(gens.mk(spec, ParentedTree),
			newsent))
	same(gens.leavesof(result), list(range(len(sent))), 'leaves in order')
	same(sorted(newsent), sorted(sent), 'words')

	def words(a, s):
		if isinstance(a, int):
			return s[a]
		return (a[0], ) + tuple(sorted(words(b, s) for b in a[1]))
	same(words(result, newsent), words(spec, sent), 'structure')
	# children in order of their last word (recursively)

	def order(a):
		if gens.ispre(a):
			return [a[1][0]]
		kids = sorted((order(b) for b in a[1]), key=lambda x: (x[-1], x))
		return [b for c in kids for b in c]
	same(newsent, [sent[n] for n in order(spec)], 'word order')
	return gens.isdisc(spec)


@prop(gens.specs(**SPECS), quick=600, rule='discontinuous tree')
def continuous_subsets(arg):
	"""contsets partitions children of nodes without discontinuous children
	in continuous subsets."""
	n = 0
	for a in gens.nodesof(arg):
		if gens.ispre(a) or any(gens.blocks(gens.leavesof(b)) > 1
				for b in a[1]):
			continue
		node = gens.mk(a, Tree)
		same([[gens.unmk(c) for c in b] for b in contsets(node)],
				runs(a[1]), 'contsets')
		n += len(runs(a[1])) > 1
	return n > 0


@prop(gens.specs(**SPECS), quick=600, rule='tree is not canonical')
def canonical_order(arg):
	"""canonicalize orders children by their first word."""
	for cls in (Tree, ParentedTree):
		tree = gens.mk(arg, cls)
		check(canonicalize(tree) is tree, 'in-place')
		same(gens.unmk(tree), gens.canonspec(arg), 'canonicalized')
	return gens.canonspec(arg) != arg


@prop(st.tuples(st.integers(2, 25), st.integers(1, 3), st.booleans()),
		quick=300, rule='more than ten components')
def many_components(arg):
	"""Any number of components is merged again; also when it is the same for
	two constituents with the same label."""
	n, m, nested = arg
	kids = [['A', [['x', [(m + 1) * a + b]] for a in range(n)]]
			for b in range(m)]
	spec = ['S', kids + [['y', [(m + 1) * a + m]] for a in range(n)]]
	if nested:
		spec = ['S', [['B', kids]] + spec[1][m:]]
	tree = gens.mk(spec, Tree)
	result = splitdiscnodes(tree, markorigin=True)
	same(gens.unmk(result), split(spec, True)[0], 'split')
	same(gens.unmk(canonicalize(mergediscnodes(result))),
			gens.canonspec(spec), 'merged')
	return n > 10
