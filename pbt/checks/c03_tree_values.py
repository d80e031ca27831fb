"""Copies, conversions, frozen trees: independence, immutability, equality."""
import pickle
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import (Tree, ParentedTree, ImmutableTree,
		ImmutableParentedTree, DiscTree, HEAD)
import gens

NEED = ('bit', )
CLASSES = (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree)
anyspec = gens.specs(maxleaves=6, preterm=False, shuffle=True)


def annotate(tree):
	for n, a in enumerate(tree.subtrees()):
		if n % 2:
			a.source = ['w%d' % n, 'l', 't', '--', 'f', '0']
		if n % 3 == 1:
			a.type = n % 3
	return tree


def attrs(tree):
	return [(a.label, None if a.source is None else list(a.source), a.type)
			for a in tree.subtrees()]


@prop(st.tuples(anyspec, st.integers(0, 3), st.integers(0, 3)), quick=1500,
		rule='tree with more than one leaf')
def copy_convert(arg):
	"""Copies and conversions have equal structure and attributes, share
	nothing mutable with the original, and have the requested type."""
	spec, a, b = arg
	cls1, cls2 = CLASSES[a], CLASSES[b]
	tree = annotate(gens.mk(spec, cls1))
	for new, cls in ((tree.copy(True), cls1), (cls2.convert(tree), cls2),
			(tree.freeze(), ImmutableParentedTree
				if issubclass(cls1, ParentedTree) else ImmutableTree)):
		same(gens.unmk(new), spec, 'structure of copy')
		same(attrs(new), attrs(tree), 'attributes of copy')
		check(all(type(x) is cls for x in new.subtrees()), 'type of copy')
		check(not {id(x) for x in new.subtrees()}
				& {id(x) for x in tree.subtrees()}, 'shared node')
		check(not {id(x.source) for x in new.subtrees() if x.source}
				& {id(x.source) for x in tree.subtrees() if x.source},
				'shared source')
		if cls2 in (Tree, ParentedTree) and new.__class__ is cls2:
			for x in new.subtrees():
				x.label += '!'
				if x.source:
					x.source[2] = 'changed'
			new[:] = []
			same(gens.unmk(tree), spec, 'original changed')
			check(not any(x.source and x.source[2] == 'changed'
					for x in tree.subtrees()), 'original source changed')
	if cls1 is Tree:
		shallow = tree.copy()
		check(shallow is not tree and shallow.children is not tree.children
				and all(x is y for x, y in zip(shallow, tree)), 'copy()')
		same(shallow.label, tree.label, 'copy()')
	frozen = tree.freeze(leaf_freezer=lambda x: x + 1) if cls1 in (
			Tree, ParentedTree) else None
	if frozen is not None:
		same(list(frozen.leaves()), [x + 1 for x in tree.leaves()],
				'freeze(leaf_freezer)')
		same(gens.unmk(tree), spec, 'freeze() changed original')
	return gens.classify(spec)


@prop(st.tuples(anyspec, st.booleans(), st.integers(0, 30),
		st.integers(-4, 4)), quick=1500, rule='more than one leaf')
def immutable(arg):
	"""No operation changes an immutable tree; each raises an exception."""
	spec, parented, which, i = arg
	cls = ImmutableParentedTree if parented else ImmutableTree
	tree = gens.mk(spec, cls)
	nodes = list(tree.subtrees())
	node = nodes[which % len(nodes)]
	new = cls('N', [1])
	before, h = gens.unmk(tree), hash(tree)
	bits, leaves = node.bitset, list(node.leaves())

	def iadd():
		x = node
		x += [new]

	def imul():
		x = node
		x *= 2
	for func in (lambda: node.append(new), lambda: node.extend([new]),
			lambda: node.insert(0, new), lambda: node.pop(),
			lambda: node.pop(0), lambda: node.remove(node[0]),
			lambda: node.__setitem__(0, new),
			lambda: node.__setitem__(slice(0, 1), [new]),
			lambda: node.__setitem__((0, ), new),
			lambda: node.__delitem__(0),
			lambda: node.__delitem__(slice(None)),
			lambda: node.__delitem__((0, )), iadd, imul):
		raises((ValueError, TypeError), func)
		same(gens.unmk(tree), before, 'immutable tree was modified')
	if parented:
		for name, args in (('detach', ()), ('disown', ()), ('prune', ()),
				('splicebelow', ('X', )), ('spliceabove', ('X', ))):
			if node.parent is None and name != 'disown':
				continue
			raises((ValueError, TypeError), getattr(node, name), *args)
			same(gens.unmk(tree), before, '%s modified immutable tree', name)
			check(node.parent is None
					or node.parent[node.parent_index] is node, 'parent')
	same(hash(tree), h, 'hash changed')
	same(node.bitset, bits, 'bitset changed')
	same(node.leaves(), leaves, 'leaves changed')
	return gens.classify(spec)


@st.composite
def pairs(draw):
	"""Pairs of trees that are often equal or nearly so."""
	a = draw(anyspec)
	kind = draw(st.integers(0, 3))
	if kind == 0:
		return a, a
	elif kind == 1:
		return a, draw(anyspec)
	b = edit(a, [draw(st.integers(0, 9))], draw(st.integers(0, 2)))
	return a, b


def edit(spec, countdown, what):
	"""Make a single change."""
	if isinstance(spec, int):
		return spec
	countdown[0] -= 1
	if countdown[0] == 0:
		if what == 0:
			return [spec[0] + 'x', spec[1]]
		elif what == 1:
			return [spec[0], spec[1][::-1]]
		return [spec[0], spec[1] + [spec[1][-1]]] if isinstance(
				spec[1][-1], int) else [spec[0], [[spec[0], spec[1]]]]
	return [spec[0], [edit(x, countdown, what) for x in spec[1]]]


@prop(st.tuples(pairs(), st.integers(0, 3), st.integers(0, 3)), quick=2000,
		rule='pair of trees with more than one leaf')
def equality(arg):
	"""Trees are equal iff labels and structure are; hashes agree."""
	(spec1, spec2), a, b = arg
	t1, t2 = gens.mk(spec1, CLASSES[a]), gens.mk(spec2, CLASSES[b])
	same(t1 == t2, spec1 == spec2, '%s == %s', t1, t2)
	same(t2 == t1, spec1 == spec2, '%s == %s', t2, t1)
	same(t1 != t2, spec1 != spec2, '%s != %s', t1, t2)
	for other in (None, spec1, str(t1), t1.label):
		check(not (t1 == other) and t1 != other, 'equal to non-tree')
	f1, f2 = t1.freeze(), t2.freeze()
	if spec1 == spec2:
		same(hash(f1), hash(f2), 'hash of equal trees')
	same(len({f1, f2}), 1 if spec1 == spec2 else 2, 'in set')
	same({f1: 1}.get(f2), 1 if spec1 == spec2 else None, 'in dict')
	return (gens.classify(spec1) + ['same' if spec1 == spec2 else 'different']
			if len(gens.leavesof(spec1)) > 1 else ())


def key(spec):
	"""Terminals come before constituents; otherwise by label, children."""
	return (0, spec) if isinstance(spec, int) else (
			1, spec[0], [key(a) for a in spec[1]])


@prop(st.tuples(st.lists(pairs(), min_size=1, max_size=3),
		st.lists(st.integers(0, 3), min_size=6, max_size=6)), quick=1000,
		rule='trees that are not all the same')
def ordering(arg):
	"""Trees are ordered by label, then by children; sorting gives the same
	result whatever the order of the input."""
	specs = [a for b in arg[0] for a in b]
	trees = [gens.mk(a, CLASSES[b]) for a, b in zip(specs, arg[1])]
	for a, x in zip(specs, trees):
		for b, y in zip(specs, trees):
			a1, b1 = key(a), key(b)
			same((x < y, x <= y, x > y, x >= y),
					(a1 < b1, a1 <= b1, a1 > b1, a1 >= b1),
					'comparison of %s, %s', x, y)
		for n in (0, 99):
			same((x < n, x <= n, x > n, x >= n), (False, False, True, True),
					'comparison with terminal')
			same((n < x, n <= x, n > x, n >= x), (True, True, False, False),
					'comparison with terminal')
	want = [str(gens.mk(a, Tree)) for a in sorted(specs, key=key)]
	same([str(a) for a in sorted(trees)], want, 'sorted')
	same([str(a) for a in sorted(trees[::-1])], want, 'sorted')
	return len(set(want)) > 1


def withwords(spec, sent):
	if isinstance(spec, int):
		return sent[spec]
	return [spec[0], [withwords(a, sent) for a in spec[1]]]


@st.composite
def discpairs(draw):
	spec1 = gens.canonspec(draw(gens.specs(maxleaves=6, preterm=False,
			phrasal=('A', 'B'), pos=('N', ))))
	n = len(gens.leavesof(spec1))
	word = st.sampled_from(('x', 'y', '(', None, 'the', 'a b'))
	sent1 = [draw(word) for _ in range(n)]
	kind = draw(st.integers(0, 4))
	if kind == 4:  # a single difference in the structure
		spec2 = edit(spec1, [draw(st.integers(0, 9))], 2)
		if draw(st.booleans()):
			spec1, spec2 = spec2, spec1
		return spec1, sent1, spec2, sent1
	elif kind == 3:  # same words at the leaves, in another order
		perm = draw(st.permutations(range(n)))
		return spec1, sent1, renumber(spec1, perm), [
				sent1[perm.index(a)] for a in range(n)]
	elif kind == 0:  # change some words
		sent2 = [draw(word) if draw(st.booleans()) else a for a in sent1]
		return spec1, sent1, spec1, sent2
	elif kind == 1:  # shift
		pad = draw(st.integers(0, 2))
		return spec1, sent1, shift(spec1, pad), ['pad'] * pad + sent1
	spec2 = gens.canonspec(draw(gens.specs(maxleaves=6, preterm=False,
			phrasal=('A', 'B'), pos=('N', ))))
	return spec1, sent1, spec2, [draw(word) for _ in gens.leavesof(spec2)]


def renumber(spec, perm):
	if isinstance(spec, int):
		return perm[spec]
	return [spec[0], [renumber(a, perm) for a in spec[1]]]


def shift(spec, n):
	if isinstance(spec, int):
		return spec + n
	return [spec[0], [shift(a, n) for a in spec[1]]]


@prop(discpairs(), quick=2000, rule='trees with more than one leaf')
def disctree(arg):
	"""Trees with sentences are equal iff labels, structure and words are."""
	spec1, sent1, spec2, sent2 = arg
	a = DiscTree(gens.mk(spec1, Tree).freeze(), sent1)
	# NB: the same words, but not the same objects
	b = DiscTree(gens.mk(spec2, Tree).freeze(), [
			None if x is None else ''.join(list(x)) for x in sent2])
	want = withwords(spec1, sent1) == withwords(spec2, sent2)
	same(a == b, want, 'equality of %r, %r', a, b)
	same(b == a, want, 'equality of %r, %r', b, a)
	same(a != b, not want, 'inequality')
	if want:
		same(hash(a), hash(b), 'hash of equal trees')
	same(len({a, b}), 1 if want else 2, 'in set')
	return ('same' if want else 'different', ) if len(sent1) > 1 else ()
