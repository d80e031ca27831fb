"""Punctuation strategies."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree
from discodop.punctuation import (ispunct, punctremove, punctprune, punctroot,
		punctlower, punctraise, balancedpunctraise, applypunct)
import gens

NEED = ('bit', )
ASSUMPTIONS = ['every terminal has a preterminal']

WORDSTR = ('a', 'b', 'c', '.', ',', '"', "'", '``', "''", '(', ')', '-', '[',
		']', '?', '--', 'é', '-LRB-', '-RRB-', '«', '»', 'Â', '·')
PUNCTSTR = set(WORDSTR) - {'a', 'b', 'c', 'é', "'", 'Â'}
TAGS = ('N', 'V', 'N-PUNCT', 'PUNCT-X', '.', '$,', "''", '``', '$[', ':', 'PUNCT')
PUNCTTAG = set(TAGS) - {'N', 'V', 'N-PUNCT', 'PUNCT-X'}
PAIRS = {'"': '"', "'": "'", '``': "''", '[': ']', '(': ')',
		'-LRB-': '-RRB-', '-': '-', '«': '»'}


@st.composite
def cases(draw, flat=False):
	"""Trees with tags (mostly) in accordance with words."""
	spec = draw(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('N', 'V'),
			maxleaves=10, maxarity=6, shuffle=draw(st.booleans())))
	n = len(gens.leavesof(spec))
	sent = [draw(st.sampled_from(WORDSTR[:3]) | st.sampled_from(WORDSTR))
			for _ in range(n)]
	for a in gens.nodesof(spec):
		if gens.ispre(a):
			if sent[a[1][0]] in PUNCTSTR | {"'"} and draw(st.integers(0, 5)):
				a[0] = draw(st.sampled_from(TAGS[4:]))
			elif not draw(st.integers(0, 12)):
				a[0] = draw(st.sampled_from(TAGS))
	if n > 2 and draw(st.booleans()):  # a pair
		i = draw(st.integers(0, n - 2))
		j = draw(st.integers(i + 1, n - 1))
		pair = draw(st.sampled_from(sorted(PAIRS)))
		sent[i], sent[j] = pair, PAIRS[pair]
		k = draw(st.sampled_from([i, i, draw(st.integers(0, n - 1))]))
		sent[k] = pair  # possibly a third
		for a in gens.nodesof(spec):
			if a[1] in ([i], [j], [k]):
				a[0] = draw(st.sampled_from(('$[', '``')))
	spec = ['ROOT', [spec]]
	if draw(st.booleans()):  # attach punctuation to root
		spec, out = detach(spec, sent)
		spec[1].extend(out)
	return spec, sent


@st.composite
def quoted(draw):
	"""Sentences with several quotes, and no other punctuation."""
	spec = draw(gens.specs(phrasal=('S', 'NP', 'VP'), pos=('N', ),
			minleaves=4, maxleaves=9, maxarity=4, unary=False))
	n = len(gens.leavesof(spec))
	sent = ['a'] * n
	for _ in range(draw(st.integers(2, 4))):
		sent[draw(st.integers(0, n - 1))] = draw(st.sampled_from('""(-'))
	if '(' in sent:
		sent[draw(st.integers(0, n - 1))] = ')'
	for a in gens.nodesof(spec):
		if gens.ispre(a) and sent[a[1][0]] != 'a':
			a[0] = "''"
	return ['ROOT', [spec]], sent


def punct(spec, sent):
	return {a[1][0]: a for a in gens.nodesof(spec) if gens.ispre(a)
			and (sent[a[1][0]] in PUNCTSTR or a[0] in PUNCTTAG)}


def detach(spec, sent):
	"""Remove punctuation and emptied ancestors; no renumbering."""
	marks = punct(spec, sent)

	def visit(a):
		if gens.ispre(a):
			return None if a[1][0] in marks else a
		kids = [visit(b) for b in a[1]]
		kids = [b for b in kids if b is not None]
		return [a[0], kids] if kids else None
	return visit(spec) or [spec[0], []], [marks[a] for a in sorted(marks)]


def sortkids(a):
	"""Canonical form, with or without empty nodes"""
	if isinstance(a, int):
		return a
	return [a[0], sorted((sortkids(b) for b in a[1]),
			key=lambda b: (gens.leavesof(b), str(b)))]


def nothinglost(before, sent, after):
	"""Apart from the place of punctuation, trees are the same."""
	x, marks = detach(before, sent)
	y, marks2 = detach(after, sent)
	same(sorted(gens.leavesof(after)), list(range(len(sent))), 'tokens')
	same(marks2, marks, 'preterminals of punctuation')
	same(sortkids(y), sortkids(x), 'tree without punctuation')


@prop(cases(), quick=1000, rule='some punctuation, some not')
def remove(arg):
	"""remove and removeall delete exactly all punctuation, respectively all
	preterminals under the root."""
	spec, sent = arg
	for method in ('remove', 'removeall'):
		if method == 'remove':
			drop = set(punct(spec, sent))
		else:
			drop = {a[1][0] for a in spec[1] if gens.ispre(a)}
		tree, newsent = gens.mk(spec, ParentedTree), sent[:]
		applypunct(method, tree, newsent)
		keep = [n for n in range(len(sent)) if n not in drop]
		same(gens.unmk(tree), gens.removed(spec, keep), method)
		same(newsent, [sent[n] for n in keep], 'sentence')
		gens.links(tree)
	for a in gens.nodesof(spec):
		if gens.ispre(a):
			same(ispunct(sent[a[1][0]], gens.mk(a, Tree)),
					a[1][0] in punct(spec, sent), 'ispunct')
	return 0 < len(punct(spec, sent)) < len(sent)


@prop(cases(), quick=800, rule='pruned part but not all of sentence')
def prune(arg):
	"""Leading and trailing quotes and periods are removed, also without
	a tree."""
	spec, sent = arg
	quotes = {'``', "''", '"', '.'}
	i, j = 0, len(sent)
	while i < j and sent[i] in quotes:
		i += 1
	while j > i and sent[j - 1] in quotes:
		j -= 1
	tree, newsent = gens.mk(spec, ParentedTree), sent[:]
	punctprune(tree, newsent)
	same(newsent, sent[i:j], 'sentence')
	same(gens.unmk(tree), gens.removed(spec, range(i, j)), 'tree')
	gens.links(tree)
	newsent = sent[:]
	punctprune(None, newsent)
	same(newsent, sent[i:j], 'sentence without tree')
	return 0 < j - i < len(sent)


@prop(cases(), quick=1000, rule='punctuation was not attached to root')
def root(arg):
	"""All punctuation is attached to the root, emptied nodes are removed."""
	spec, sent = arg
	tree, newsent = gens.mk(spec, ParentedTree), sent[:]
	applypunct('root', tree, newsent)
	same(newsent, sent, 'sentence')
	rest, marks = detach(spec, sent)
	same(sortkids(gens.unmk(tree)), sortkids([rest[0], rest[1] + marks]),
			'tree')
	gens.links(tree)
	return any(a[1][0] in punct(spec, sent) for b in spec[1]
			for a in gens.nodesof(b) if gens.ispre(a) and a is not b)


def findparent(spec, idx):
	for a in gens.nodesof(spec):
		for b in a[1]:
			if not isinstance(b, int) and b[1] == [idx]:
				return a
	return None


@prop(cases(), quick=1500, rule='punctuation was lowered')
def lower(arg):
	"""Punctuation is moved below constituents that surround it; nothing is
	lost, and everything else stays in place."""
	spec, sent = arg
	if not any(gens.nodesof(a) and not gens.ispre(a) for a in spec[1]):
		return False
	tree = gens.mk(spec, ParentedTree)
	newsent = sent[:]
	punctlower(tree, newsent)
	same(newsent, sent, 'sentence')
	after = gens.unmk(tree)
	nothinglost(spec, sent, after)
	gens.links(tree)
	marks = punct(spec, sent)
	rest, _ = detach(spec, sent)
	for a in gens.nodesof(after):
		words = [b for b in gens.leavesof(a) if b not in marks]
		check(words or a is after or gens.ispre(a), 'only punctuation: %s', a)
		if a is after or not words:
			continue
		for b in a[1]:
			if not isinstance(b, int) and gens.ispre(b) and b[1][0] in marks:
				leaves = [c for c in gens.leavesof(a) if c != b[1][0]]
				check(min(leaves) < b[1][0] < max(leaves),
						'%s should not be in %s', b, a)
	# no constituent at the top level that surrounds punctuation under root
	for b in after[1]:
		if gens.ispre(b) and b[1][0] in marks:
			for c in rest[1]:
				leaves = gens.leavesof(c)
				check(gens.ispre(c) or not min(leaves) < b[1][0] < max(leaves),
						'%s should be lowered to %s', b, c)
	return after != spec


@prop(cases(), quick=2000, rule='punctuation is attached elsewhere')
def raise_(arg):
	"""Punctuation under the root is attached to the highest constituent with
	a child to the right of it; nothing else changes."""
	spec, sent = arg
	for rootpreterms in (False, True):
		tree = gens.mk(spec, ParentedTree)
		newsent = sent[:]
		punctraise(tree, newsent, rootpreterms)
		same(newsent, sent, 'sentence')
		gens.links(tree)
		after = gens.unmk(tree)
		if not rootpreterms:
			nothinglost(spec, sent, after)
		moved = [a for a in spec[1] if gens.ispre(a) and (rootpreterms
				or a[1][0] in punct(spec, sent))]
		# reference: preorder search for node with child starting at next index
		cur = [spec[0], list(spec[1])]
		cur = eval(repr(cur))  # pylint: disable=eval-used
		for a in reversed(moved):
			if len(cur[1]) == 1:
				continue
			n = [n for n, b in enumerate(cur[1]) if b == a][0]
			del cur[1][n]
			for b in gens.nodesof(cur):
				if not gens.ispre(b) and any(min(gens.leavesof(c))
						== a[1][0] + 1 for c in b[1]):
					b[1].append(a)
					break
			else:
				cur[1].append(a)
		same(sortkids(after), sortkids(cur), 'raised')
	return sortkids(after) != sortkids(spec)


@prop(cases() | quoted(), quick=3000, rule='a pair of marks ended up with same parent')
def balanced(arg):
	"""Matching marks are attached to the same constituent whenever the
	constituent of one of them is adjacent to the other; nothing is lost."""
	spec, sent = arg
	tree = gens.mk(spec, ParentedTree)
	newsent = sent[:]
	balancedpunctraise(tree, newsent)
	same(newsent, sent, 'sentence')
	gens.links(tree)
	after = gens.unmk(tree)
	nothinglost(spec, sent, after)
	for a in gens.nodesof(after):
		check(a[1] or a is after, 'empty node left behind: %s', a)
	marks = {n: a for n, a in punct(spec, sent).items() if a[0] in PUNCTTAG}
	# marks which are not part of any pair stay where they are; find pairs
	open_, pairs = {}, []
	for n in sorted(marks):
		w = sent[n]
		if w in open_:
			pairs.append((open_.pop(w), n))
		elif w in PAIRS:
			open_[PAIRS[w]] = n
	paired = {a for b in pairs for a in b}
	key = lambda x, n: sorted(a for a in gens.leavesof(findparent(x, n))
			if a not in punct(spec, sent))
	hit = False
	for n in set(punct(spec, sent)) - paired:
		same(key(after, n), key(spec, n), 'unpaired mark was moved')
	if len(pairs) == 1:
		left, right = pairs[0]
		leftp, rightp = findparent(spec, left), findparent(spec, right)
		adjacent = (max(gens.leavesof(leftp)) == right - 1
				or min(gens.leavesof(rightp)) == left + 1)
		x, y = findparent(after, left), findparent(after, right)
		if adjacent:
			check(x is y, 'pair is not in same constituent')
			hit = leftp is not rightp
		else:
			same(sortkids(after), sortkids(spec), 'should not be moved')
	elif not pairs:
		same(after, spec, 'nothing to move')
	return hit


@prop(st.tuples(cases(), st.sampled_from(['move', 'moveall', 'prune'])),
		quick=1000, rule='tree has changed')
def move(arg):
	"""The combined strategies keep all (other) tokens and the structure, and
	return a tree in canonical order."""
	(spec, sent), method = arg
	tree, newsent = gens.mk(spec, ParentedTree), sent[:]
	before = spec
	if method == 'prune':
		tree2 = gens.mk(spec, ParentedTree)
		want = sent[:]
		punctprune(tree2, want)
		before = gens.unmk(tree2)
	else:
		want = sent
	if not want:
		return False
	applypunct(method, tree, newsent)
	same(newsent, want, 'sentence')
	after = gens.unmk(tree)
	if method != 'moveall':
		nothinglost(before, newsent, after)
	same(sorted(gens.leavesof(after)), list(range(len(newsent))), 'tokens')
	same(after, gens.canonspec(after), 'canonical order')
	gens.links(tree)
	# same as applying the strategies separately
	tree2, sent2 = gens.mk(before, ParentedTree), want[:]
	punctraise(tree2, sent2, method == 'moveall')
	balancedpunctraise(tree2, sent2)
	same(after, gens.canonspec(gens.unmk(tree2)), method)
	for a in ('no', 'leave'):
		tree2 = gens.mk(spec, ParentedTree)
		applypunct(a, tree2, sent)
		same(gens.unmk(tree2), spec, a)
	return after != gens.canonspec(spec)
