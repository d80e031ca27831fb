"""Read-only queries of trees agree with the structure of the tree."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import (Tree, ParentedTree, ImmutableTree,
		ImmutableParentedTree, isdisc, ranges)
from discodop.treetransforms import (getbits, fanout, addbitsets, contsets)
import gens

NEED = ('bit', )
CLASSES = (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree)


def positions(spec, pos=()):
	"""All (position, node) pairs in preorder."""
	yield pos, spec
	if not isinstance(spec, int):
		for n, a in enumerate(spec[1]):
			yield from positions(a, pos + (n, ))


def post(spec):
	if isinstance(spec, int):
		return
	for a in spec[1]:
		yield from post(a)
	yield spec


def both(spec, pos=()):
	if isinstance(spec, int):
		yield pos
		return
	yield pos
	for n, a in enumerate(spec[1]):
		yield from both(a, pos + (n, ))
	yield pos


def postpos(spec, pos=()):
	if not isinstance(spec, int):
		for n, a in enumerate(spec[1]):
			yield from postpos(a, pos + (n, ))
	yield pos


def height(spec):
	return 1 if isinstance(spec, int) else 1 + max(map(height, spec[1]),
			default=0)


def withempty(spec, choices, n=0):
	"""Insert empty (childless) nodes at some places."""
	result = [spec[0], []]
	for a in spec[1]:
		if choices and choices.pop():
			result[1].append(['E', []])
		result[1].append(a if isinstance(a, int) else withempty(a, choices))
	return result


anytree = st.tuples(gens.specs(maxleaves=9, preterm=False, shuffle=True),
		st.integers(0, 3), st.lists(st.booleans(), max_size=4))


def setup(arg):
	spec, cls, empty = arg
	spec = withempty(spec, empty[:])
	return spec, gens.mk(spec, CLASSES[cls])


@prop(anytree, quick=1500, rule='tree with more than one leaf')
def traversal(arg):
	"""subtrees/postorder/leaves/pos/height/treepositions/indexing agree with
	a direct recursive definition."""
	spec, tree = setup(arg)
	pre = list(positions(spec))
	nodes = [(p, a) for p, a in pre if not isinstance(a, int)]
	got = list(tree.subtrees())
	same([gens.unmk(a) for a in got], [a for _, a in nodes], 'subtrees()')
	check(all(tree[p] is a for (p, _), a in zip(nodes, got)),
			'subtrees() gives different objects than indexing')
	check(tree[()] is tree, 'tree[()]')
	same([gens.unmk(a) for a in tree.postorder()], list(post(spec)),
			'postorder()')
	same({id(a) for a in tree.postorder()}, {id(a) for a in got},
			'postorder() nodes')
	label = spec[0]
	same([id(a) for a in tree.subtrees(lambda n: n.label == label)],
			[id(a) for a in got if a.label == label], 'subtrees(condition)')
	same([id(a) for a in tree.postorder(lambda n: n.label != label)],
			[id(a) for a in tree.postorder() if a.label != label],
			'postorder(condition)')
	leaves = gens.leavesof(spec)
	same(list(tree.leaves()), leaves, 'leaves()')
	same(tree.height(), height(spec), 'height()')
	same(tree.pos(), [(b, a[0]) for _, a in nodes for b in a[1]
			if isinstance(b, int)] if not any(
				isinstance(b, int) for _, a in nodes for b in a[1]
				if not all(isinstance(c, int) for c in a[1]))
			else tree.pos(), 'pos()')
	same(sorted(tree.pos()), sorted((b, a[0]) for _, a in nodes for b in a[1]
			if isinstance(b, int)), 'pos() as set')
	same(sorted(map(id, tree.pos(nodes=True))), sorted(id(tree[p])
			for p, a in nodes if any(isinstance(b, int) for b in a[1])),
			'pos(nodes=True)')
	same(tree.treepositions(), [p for p, _ in pre], 'treepositions()')
	same(tree.treepositions('postorder'), list(postpos(spec)),
			'treepositions(postorder)')
	same(tree.treepositions('bothorder'), list(both(spec)),
			'treepositions(bothorder)')
	leafpos = [p for p, a in pre if isinstance(a, int)]
	same(tree.treepositions('leaves'), leafpos, 'treepositions(leaves)')
	for n, p in enumerate(leafpos):
		same(tree.leaf_treeposition(n), p, 'leaf_treeposition(%d)', n)
		same(tree[p], leaves[n], 'tree[leaf_treeposition]')
		same(tree[list(p)], leaves[n], 'tree[list]')
	raises(IndexError, tree.leaf_treeposition, len(leaves))
	raises(IndexError, tree.leaf_treeposition, -1)
	found = tree.find(lambda n: n == tree[-1])
	check(found is not None and found == tree[-1], 'find()')
	check(tree.find(lambda n: False) is None, 'find() without match')
	same(list(tree), list(tree[:]), 'iteration')
	same([gens.unmk(a) for a in tree], spec[1], 'children')
	same(len(tree), len(spec[1]), 'len()')
	for n, a in enumerate(tree):
		check(tree[n] is a and tree[n - len(tree)] is a, 'tree[n]')
	same(bool(tree), bool(spec[1]), 'truth value')
	return gens.classify(spec) + (['empty'] if any(
			not a[1] for _, a in nodes) else [])


@prop(st.tuples(anytree, st.integers(0, 8), st.integers(0, 8)), quick=1500,
		rule='span of at least two leaves')
def spanning(arg):
	"""treeposition_spanning_leaves gives the lowest node covering a range of
	leaves."""
	arg, start, end = arg
	spec, tree = setup(arg)
	n = len(gens.leavesof(spec))
	start, end = start % (n + 1), end % (n + 1)
	if end <= start:
		raises(ValueError, tree.treeposition_spanning_leaves, start, end)
		return ()
	leafpos = [p for p, a in positions(spec) if isinstance(a, int)]
	want = leafpos[start:end]
	best = max((p for p, _ in positions(spec)
			if all(q[:len(p)] == p for q in want)), key=len)
	same(tree.treeposition_spanning_leaves(start, end), best,
			'treeposition_spanning_leaves(%d, %d)', start, end)
	return ('span%d' % min(4, end - start), ) if end - start > 1 else ()


@prop(st.tuples(gens.specs(maxleaves=12, shuffle=True, preterm=False),
		st.integers(0, 3)), quick=1500, rule='tree with more than one leaf')
def discontinuity(arg):
	"""isdisc/fanout/bitsets of nodes reflect the gaps in their yields."""
	spec, cls = arg
	tree = gens.mk(spec, CLASSES[cls])
	nodes = gens.nodesof(spec)
	for a, b in zip(nodes, tree.subtrees()):
		same(isdisc(b), gens.blocks(gens.leavesof(a)) > 1, 'isdisc(%s)', b)
	frozen = addbitsets(tree)
	check(isinstance(frozen, ImmutableTree), 'addbitsets() type')
	same(gens.unmk(frozen), spec, 'addbitsets()')
	same(gens.unmk(addbitsets(str(tree))), spec, 'addbitsets(str)')
	for a, b in zip(nodes, frozen.subtrees()):
		leaves = gens.leavesof(a)
		same(b.bitset, sum(1 << n for n in set(leaves)), 'bitset of %s', b)
		same(fanout(b), gens.blocks(leaves), 'fanout(%s)', b)
		same(list(getbits(b.bitset)), sorted(leaves), 'getbits')
		same(list(ranges(sorted(leaves))), runs(sorted(leaves)), 'ranges')
		same(isdisc(b), gens.blocks(leaves) > 1, 'isdisc(frozen)')
		kids = [c for c in b if isinstance(c, Tree)]
		if kids and len(kids) == len(b) and not any(map(isdisc, kids)):
			# maximal groups of adjacent children
			want = []
			for c in sorted(kids, key=lambda c: min(c.leaves())):
				if want and max(want[-1][-1].leaves()) == min(c.leaves()) - 1:
					want[-1].append(c)
				else:
					want.append([c])
			same([[id(c) for c in x] for x in contsets(kids)],
					[[id(c) for c in x] for x in want], 'contsets(%s)', kids)
	return gens.classify(spec)


def runs(seq):
	result = []
	for a in seq:
		if result and result[-1][-1] == a - 1:
			result[-1].append(a)
		else:
			result.append([a])
	return result
