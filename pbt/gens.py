"""Generators of plain-data tree specifications and helpers to build objects.

A spec is a nested list: ``['LABEL', [child, ...]]`` where a child is a spec or
an integer (terminal index).
"""
from hypothesis import strategies as st

PHRASAL = ('S', 'NP', 'VP', 'PP', 'SBAR', 'AP')
POS = ('DT', 'NN', 'VB', 'JJ', 'IN', 'RB')
WORDS = ('the', 'cat', 'saw', 'a', 'dog', 'in', 'big', 'house', 'Mary', 'is')


# --- reference implementations on specs ------------------------------------

def leavesof(spec):
	if isinstance(spec, int):
		return [spec]
	return [b for a in spec[1] for b in leavesof(a)]


def nodesof(spec):
	"""Pre-order list of nonterminal nodes."""
	if isinstance(spec, int):
		return []
	result = [spec]
	for a in spec[1]:
		result.extend(nodesof(a))
	return result


def ispre(spec):
	return bool(spec[1]) and isinstance(spec[1][0], int)


def blocks(leaves):
	"""Number of maximal contiguous runs."""
	leaves = sorted(set(leaves))
	return sum(1 for n, a in enumerate(leaves)
			if n == 0 or leaves[n - 1] != a - 1)


def isdisc(spec):
	return any(blocks(leavesof(a)) > 1 for a in nodesof(spec))


def hasunary(spec):
	return any(len(a[1]) == 1 and not isinstance(a[1][0], int)
			for a in nodesof(spec))


def strspec(spec):
	if isinstance(spec, int):
		return str(spec)
	return '(%s %s)' % (spec[0], ' '.join(strspec(a) for a in spec[1]))


def gap(spec, at, num):
	"""Add ``num`` to each index from ``at``."""
	if isinstance(spec, int):
		return spec + num if spec >= at else spec
	return [spec[0], [gap(a, at, num) for a in spec[1]]]


def padded(spec, sent, at, num, phrasal='S', pos='A', word='w'):
	"""Insert ``num`` terminals before terminal ``at``, as a constituent (of
	limited arity) under the root."""
	def build(start, end):
		if end - start == 1:
			return [pos, [start]]
		step = max(1, (end - start + 3) // 4)
		return [phrasal, [build(n, min(n + step, end))
				for n in range(start, end, step)]]
	if not num:
		return spec, sent
	at = min(at, len(sent))
	spec = gap(spec, at, num)
	return ([spec[0], spec[1] + [build(at, at + num)]],
			sent[:at] + [word] * num + sent[at:])


def canonspec(spec):
	"""Order children by their lowest leaf."""
	if isinstance(spec, int):
		return spec
	return [spec[0], sorted((canonspec(a) for a in spec[1]),
			key=lambda a: min(leavesof(a)))]


def mk(spec, cls):
	"""Build tree object from spec."""
	if isinstance(spec, int):
		return spec
	return cls(spec[0], [mk(a, cls) for a in spec[1]])


def unmk(tree):
	"""Convert tree object to spec."""
	if not hasattr(tree, 'label'):
		return tree
	return [tree.label, [unmk(a) for a in tree]]


def removed(spec, keep):
	"""Reference: remove terminals not in keep, and emptied ancestors;
	renumber."""
	new = {a: n for n, a in enumerate(sorted(keep))}

	def visit(a):
		if ispre(a):
			return [a[0], [new[a[1][0]]]] if a[1][0] in new else None
		kids = [visit(b) for b in a[1]]
		kids = [b for b in kids if b is not None]
		return [a[0], kids] if kids else None
	return visit(spec) or [spec[0], []]


def links(tree):
	"""Oracle: parent pointers are consistent."""
	assert tree.parent is None, 'root has parent'
	for a in tree.subtrees():
		for n, b in enumerate(a):
			assert isinstance(b, int) or (b.parent is a and
					b.parent_index == n), 'wrong parent of %s' % b


def maxarity(spec):
	return max(len(a[1]) for a in nodesof(spec))


def classify(spec):
	result = []
	if len(leavesof(spec)) > 1:
		result.append('multiword')
		if isdisc(spec):
			result.append('disc')
		if hasunary(spec):
			result.append('unary')
		if maxarity(spec) > 2:
			result.append('nary')
	return result


# --- strategies ---------------------------------------------------------------

def biased(draw, n, weight):
	"""Boolean that is True with approx. probability weight / n."""
	return draw(st.integers(0, n - 1)) >= n - weight


@st.composite
def specs(draw, minleaves=1, maxleaves=8, disc=True, phrasal=PHRASAL, pos=POS,
		unary=True, root=None, maxarity=5, shuffle=False, preterm=True,
		distinct=False):
	"""Generate a tree over leaves 0..n-1.

	:param disc: whether to generate discontinuous constituents.
	:param unary: whether to generate unary phrasal nodes.
	:param shuffle: if True, children are not necessarily in canonical order.
	:param preterm: if True, all leaves are dominated by preterminals with a
		single child; otherwise leaves may occur directly below phrasal nodes.
	:param distinct: every phrasal node has a distinct label."""
	n = draw(st.integers(minleaves, maxleaves))
	usedisc = disc and draw(st.booleans())
	counter = [0]

	def label(alphabet):
		if isinstance(alphabet, (tuple, list)):
			result = draw(st.sampled_from(alphabet))
		else:
			result = draw(alphabet)
		if distinct:
			counter[0] += 1
			result = '%s%d' % (result, counter[0])
		return result

	def leaf(idx):
		if not preterm and draw(st.booleans()):
			return idx
		result = [label(pos), [idx]]
		while unary and biased(draw, 6, 1):
			result = [label(phrasal), [result]]
		return result

	def build(indices):
		if len(indices) == 1:
			return leaf(indices[0])
		k = draw(st.integers(2, min(maxarity, len(indices))))
		if usedisc and draw(st.booleans()):
			assignment = [draw(st.integers(0, k - 1)) for _ in indices]
			groups = {}
			for idx, a in zip(indices, assignment):
				groups.setdefault(a, []).append(idx)
			groups = list(groups.values())
			if len(groups) == 1:
				groups = [indices[:1], indices[1:]]
		else:
			cuts = sorted(draw(st.sets(st.integers(1, len(indices) - 1),
					min_size=k - 1, max_size=k - 1)))
			groups = [indices[a:b] for a, b in zip(
					[0] + cuts, cuts + [len(indices)])]
		if shuffle:
			groups = draw(st.permutations(groups))
		result = [label(phrasal), [build(a) for a in groups]]
		while unary and biased(draw, 8, 1):
			result = [label(phrasal), [result]]
		return result

	result = build(list(range(n)))
	if isinstance(result, int):
		result = [label(pos), [result]]
	if root is not None:
		result = [root, [result] if draw(st.booleans())
				or ispre(result) else result[1]]
	elif ispre(result):
		result = [label(phrasal), [result]]
	return result


def words(alphabet=None):
	return st.sampled_from(WORDS) if alphabet is None else st.text(
			alphabet=alphabet, min_size=1, max_size=6)


@st.composite
def treesents(draw, word=None, **kwds):
	"""Generate (spec, sent) pairs."""
	spec = draw(specs(**kwds))
	word = word or st.sampled_from(WORDS)
	return spec, [draw(word) for _ in leavesof(spec)]
