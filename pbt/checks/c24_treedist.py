"""Tree edit distance."""
import re
from functools import lru_cache
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, ImmutableTree, DiscTree
from discodop.treedist import treedist, newtreedist, geteditstats, prepare
import gens

NEED = ('bit', )
ASSUMPTIONS = ['every terminal has a preterminal']
KW = dict(phrasal=('S', 'NP', 'X'), pos=('A', 'B'), maxleaves=6, maxarity=4,
		shuffle=True)


def plain(a):
	"""Reference preparation: nested tuples, canonical order, merged
	preterminals."""
	if gens.ispre(a):
		return ('%s-%d' % (a[0], a[1][0]), ())
	return (a[0], tuple(plain(b) for b in sorted(a[1],
			key=lambda b: min(gens.leavesof(b)))))


@lru_cache(maxsize=200000)
def size(forest):
	return sum(1 + size(b) for _, b in forest)


@lru_cache(maxsize=400000)
def dist(f1, f2):
	"""Reference: textbook recursion on the leftmost tree of forests."""
	if not f1 or not f2:
		return size(f1) + size(f2)
	(l1, k1), r1 = f1[0], f1[1:]
	(l2, k2), r2 = f2[0], f2[1:]
	return min(dist(k1 + r1, f2) + 1, dist(f1, k2 + r2) + 1,
			dist(k1, k2) + dist(r1, r2) + (l1 != l2))


@st.composite
def pairs(draw, n=2):
	"""Related trees: random edits on a tree; or unrelated trees."""
	first = draw(gens.specs(**KW))
	result = [first]
	for _ in range(n - 1):
		if draw(st.integers(0, 3)) == 0:
			result.append(draw(gens.specs(**KW)))
		else:
			result.append(edit(draw, first))
	return result


def edit(draw, spec):
	"""Delete, insert, relabel, or reattach nodes."""
	def copy(a):
		return a if isinstance(a, int) else [a[0], [copy(b) for b in a[1]]]
	spec = copy(spec)
	for _ in range(draw(st.integers(1, 3))):
		nodes = gens.nodesof(spec)
		op = draw(st.integers(0, 3))
		a = draw(st.sampled_from(nodes))
		if op == 0:
			a[0] = draw(st.sampled_from(['S', 'NP', 'X', 'A', 'B']))
		elif gens.ispre(a):
			continue
		elif op == 1:  # delete children
			m = draw(st.integers(0, len(a[1]) - 1))
			if not gens.ispre(a[1][m]):
				a[1][m:m + 1] = a[1][m][1]
		else:
			m = draw(st.integers(0, len(a[1]) - 1))
			k = draw(st.integers(m + 1, len(a[1])))
			a[1][m:k] = [['X', a[1][m:k]]]
	return spec


@prop(st.tuples(pairs(), st.sampled_from(['Tree', 'ParentedTree', 'Immutable',
		'DiscTree'])), quick=2500, rule='distance of at least 2')
def distance(arg):
	"""Both implementations return the minimum number of edits; the edit script
	has that length, accounts for every node, and transforms the tree; the
	arguments are not modified."""
	(a, b), cls = arg
	t1, t2 = mk(a, cls), mk(b, cls)
	s1, s2 = str(t1), str(t2)
	want = dist((plain(a), ), (plain(b), ))
	same(int(treedist(t1, t2)), want, 'treedist')
	same(int(newtreedist(t1, t2)), want, 'newtreedist')
	same(int(treedist(t2, t1)), want, 'treedist reversed')
	same(int(treedist(t1, t1)), 0, 'treedist to itself')
	same(int(newtreedist(t1, t1)), 0, 'treedist to itself')
	same([str(t1), str(t2)], [s1, s2], 'arguments modified')
	return want > 1


def mk(spec, cls):
	tree = gens.mk(spec, ParentedTree if cls == 'ParentedTree' else Tree)
	if cls == 'Immutable':
		return ImmutableTree.convert(tree)
	elif cls == 'DiscTree':
		return DiscTree(ImmutableTree.convert(tree),
				['w'] * len(gens.leavesof(spec)))
	return tree


@prop(pairs(), quick=1500, rule='script has all three operations')
def script(arg):
	"""The edit script is consistent with the distance and the trees."""
	a, b = arg
	t1, t2 = prepare(gens.mk(a, Tree)), prepare(gens.mk(b, Tree))
	same(tup(t1), plain(a), 'prepared tree')
	same(tup(t2), plain(b), 'prepared tree')
	geteditstats.mem.clear()
	x = geteditstats((t1.freeze(), ), (t2.freeze(), ))
	geteditstats.mem.clear()
	n1, n2 = size((plain(a), )), size((plain(b), ))
	ops = [op for op, _, _ in x.editscript]
	same(len(ops), x.distance, 'length of script')
	same(x.distance, dist((plain(a), ), (plain(b), )), 'distance')
	same(x.matched + ops.count('S') + ops.count('D'), n1, 'nodes of source')
	same(x.matched + ops.count('S') + ops.count('I'), n2, 'nodes of target')
	# multiset of labels is transformed to that of target
	l1 = sorted(labels(plain(a)))
	for op, u, v in x.editscript:
		same([u is None, v is None], [op == 'I', op == 'D'], 'operands')
		if u is not None:
			check(u.label in l1, 'removed label not in tree: %s', u.label)
			l1.remove(u.label)
		if op == 'S':
			check(u.label != v.label, 'substitution of same label')
		if v is not None:
			l1.append(v.label)
	same(sorted(l1), sorted(labels(plain(b))), 'labels after applying script')
	return len(set(ops)) == 3


def tup(tree):
	return (tree.label, tuple(tup(a) for a in tree))


def labels(a):
	return [a[0]] + [c for b in a[1] for c in labels(b)]


@prop(pairs(3), quick=800, rule='three different trees')
def metric(arg):
	"""The triangle inequality holds; distance is zero only for same tree."""
	a, b, c = [gens.mk(x, Tree) for x in arg]
	ab, bc, ac = treedist(a, b), treedist(b, c), treedist(a, c)
	check(ac <= ab + bc, 'triangle inequality: %d > %d + %d', ac, ab, bc)
	same(bool(ab == 0), plain(arg[0]) == plain(arg[1]), 'zero distance')
	return bool(ab and bc and ac)


@prop(st.tuples(gens.specs(**dict(KW, maxleaves=9)), st.sampled_from([0, 3,
		12, 100, 120, 150]), st.integers(0, 9), st.booleans()), quick=500,
		rule='more than 100 nodes')
def large(arg):
	"""Distances between a large tree and a small one; indices of more than
	one digit."""
	spec, pad, at, reverse = arg
	if gens.ispre(spec):
		return False
	words = ['w'] * len(gens.leavesof(spec))
	big, _ = gens.padded(spec, words, at, pad)
	same(tup(prepare(gens.mk(big, Tree))), plain(big), 'prepared tree')
	n = len(gens.nodesof(big))
	for label, want in (('Z', n), (big[0], n - 1)):  # only the root may match
		args = [gens.mk(big, Tree), Tree('(%s (Y 0))' % label)]
		same(int(treedist(*args[::-1 if reverse else 1])), want, 'distance')
	args = [gens.mk(spec, Tree), gens.mk(big, Tree)]
	if pad < 10:
		same(int(treedist(*args)), int(newtreedist(*args)), 'implementations')
	return n > 100


@prop(gens.specs(**dict(KW, maxleaves=9)), quick=600, rule='discontinuous')
def preparation(spec):
	"""With terminals, the structure is preserved in canonical order."""
	t = prepare(gens.mk(spec, Tree), includeterms=True)

	def visit(a):
		return (a.label, [visit(b) for b in a])

	def want(a):
		if isinstance(a, int):
			return (a, [])
		return (a[0], [want(b) for b in a[1]])
	same(visit(t), want(gens.canonspec(spec)), 'prepared tree')
	return gens.isdisc(spec)
