"""Goodman's DOP reduction is exactly equivalent to all-fragments DOP."""
from collections import Counter, defaultdict
from fractions import Fraction
from itertools import product
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, ImmutableTree
from discodop.grammar import (dopreduction, TreeDecorator, nodefreq,
		lcfrsproductions)
from discodop.treetransforms import addfanoutmarkers, binarize
import gens

NEED = ('bit', )
ASSUMPTIONS = ["labels do not contain '@'", 'trees are canonicalized and have '
		'fan-out markers, as done for any grammar extraction']
SPECS = dict(word=st.sampled_from('abc'), phrasal=('S', 'NP', 'X'),
		pos=('A', 'B'), maxleaves=5, maxarity=3)
MAXSUBTREES = 3000


def nested(tree, sent):
	"""Convert tree to nested productions: ((rule, yf), (children, ...))"""
	prods = iter(lcfrsproductions(tree, sent))

	def visit(_node):
		rule = next(prods)
		kids = [a for a in _node if isinstance(a, Tree)]
		return (rule, tuple(visit(a) for a in kids))
	return visit(tree)


def subnodes(t):
	yield t
	for a in t[1]:
		yield from subnodes(a)


def fragments(t):
	"""All fragments at the root of nested tree t; cut nodes are None."""
	return [(t[0], c) for c in product(
			*([None] + fragments(a) for a in t[1]))]


def size(f):
	return 1 + sum(size(a) for a in f[1] if a is not None)


class DOP:
	"""Reference model."""
	def __init__(self, trees, extrarules=()):
		self.count = Counter()
		self.nodes = Counter()
		for t in trees:
			for a in subnodes(t):
				self.nodes[a[0][0][0]] += 1
				self.count.update(fragments(a))
		for rule in extrarules:
			self.count[rule, ()] += extrarules[rule]
		self.total = Counter()
		for f, cnt in self.count.items():
			self.total[f[0][0][0]] += cnt

	def inside(self, t, weight, add=sum):
		"""Sum (or maximum) over derivations; weight: fragment => number"""
		memo = {}

		def cuts(f, node):
			for a, b in zip(f[1], node[1]):
				if a is None:
					yield b
				else:
					yield from cuts(a, b)

		def visit(node):
			if node not in memo:
				scores = []
				for f in fragments(node):
					if f in self.count:
						p = weight(f)
						for b in cuts(f, node):
							p *= visit(b)
						scores.append(p)
				memo[node] = add(scores) if scores else 0
			return memo[node]
		return visit(t)


class Reduction:
	"""Score trees with a grammar with decorated labels."""
	def __init__(self, rules, weights):
		self.index = defaultdict(list)
		for ((r, yf), _), w in zip(rules, weights):
			base = tuple(x.split('@')[0] for x in r), yf
			self.index[base].append((r, w))

	def inside(self, t, add=sum):
		memo = {}

		def visit(node):
			if node not in memo:
				kids = [visit(a) for a in node[1]]
				result = defaultdict(list)
				for r, w in self.index.get(node[0], ()):
					p = w
					for a, sym in zip(kids, r[1:]):
						p *= a.get(sym, 0)
					if p:
						result[r[0]].append(p)
				memo[node] = {a: add(b) for a, b in result.items()}
			return memo[node]
		return visit(t).get(t[0][0][0], 0)


@st.composite
def treebanks(draw, maxtrees=3, **kwds):
	n = draw(st.integers(1, maxtrees))
	result = []
	for _ in range(n):
		spec, sent = draw(gens.treesents(**dict(SPECS, **kwds)))
		spec = gens.canonspec(spec)
		result.append((spec, sent))
	if draw(st.booleans()):  # repeated tree, or same structure, other words
		spec, sent = draw(st.sampled_from(result))
		result.append((spec, [draw(st.sampled_from([a, 'a']))
				for a in sent]))
	return result


def prepare(items, cls=Tree):
	trees = [addfanoutmarkers(gens.mk(a, cls)) for a, _ in items]
	sents = [b for _, b in items]
	return trees, sents


def recombine(draws, nest):
	"""New trees by substituting subtrees with the same label and yields."""
	sub = defaultdict(list)
	for t in nest:
		for a in subnodes(t):
			if a not in sub[a[0][0][0]]:
				sub[a[0][0][0]].append(a)
	draws = iter(draws)

	def visit(t):
		kids = []
		for a in t[1]:
			x = next(draws, None)
			if x is not None and x > 4:
				same_ = sub[a[0][0][0]]
				a = same_[x % len(same_)]
				if sum(1 for _ in subnodes(a)) > 20:
					continue
			kids.append(visit(a))
		return (t[0], tuple(kids)) if len(kids) == len(t[1]) else t
	return [visit(t) for t in nest]


@prop(st.tuples(treebanks(), st.lists(st.integers(0, 30), max_size=20),
		st.booleans(), st.booleans(), st.lists(st.tuples(st.integers(0, 3),
			st.integers(1, 4)), max_size=2)), quick=1200,
		rule='a tree that is not in the treebank')
def equivalence(arg):
	"""Trees get the same probability as with all explicit fragments."""
	items, draws, packed, parented, extra = arg
	trees, sents = prepare(items, ParentedTree if parented else Tree)
	nest = [nested(a, b) for a, b in zip(trees, sents)]
	if sum(len(fragments(a)) for t in nest for a in subnodes(t)) > MAXSUBTREES:
		return False
	tags = sorted({r for t in nest for ((r, yf), _) in subnodes(t)
			if r[1] == 'Epsilon'})
	extrarules = {(tags[n % len(tags)], ('abz'[n % 3], )): w
			for n, w in extra}
	ref = DOP(nest, extrarules)
	before = [str(a) for a in trees]
	rules, alt = dopreduction(trees, sents, packedgraph=packed,
			extrarules=extrarules or None)
	same([str(a) for a in trees], before, 'trees modified')
	same(len({a for a, _ in rules}), len(rules), 'duplicate rules')
	for name in ('ewe', 'shortest', 'bon'):
		same(len(alt[name]), len(rules), 'number of %s weights', name)
	sums = Counter()
	for (r, _), w in rules:
		check(w == int(w) and w > 0, 'not a frequency: %r', w)
		sums[r[0]] += w
	for label, w in ref.total.items():
		same(sums[label], w, 'number of fragments headed by %s', label)
	rfe = Reduction(rules, [Fraction(int(w), int(sums[r[0]]))
			for (r, _), w in rules])
	shortest = Reduction(rules, [float(a) for a in alt['shortest']])
	bon = Reduction(rules, [float(a) for a in alt['bon']])
	ewe = Reduction(rules, [float(a) for a in alt['ewe']])
	new = recombine(draws, nest)
	for t in nest + new:
		if len(fragments(t)) > MAXSUBTREES:
			continue
		same(rfe.inside(t), ref.inside(t, lambda f:
				Fraction(ref.count[f], ref.total[f[0][0][0]])),
				'relative frequency estimate of %s', t)
		same(shortest.inside(t, max), ref.inside(t, lambda f: 0.5, max),
				'shortest derivation of %s', t)
		near(bon.inside(t), ref.inside(t, lambda f:
				2. ** -nonterms(f) * ref.count[f]
				/ ref.nodes[f[0][0][0]]), 'bonnema')
		near(ewe.inside(t), ref.inside(t, lambda f: ref.count[f]
				/ ref.total[f[0][0][0]] / ref.nodes[f[0][0][0]]), 'ewe')
	return any(t not in nest for t in new)


def nonterms(f):
	"""Non-root nonterminals in fragment."""
	result = len(f[0][0]) - 1 if f[0][0][1] != 'Epsilon' else 0
	return result + sum(nonterms(a) for a in f[1] if a is not None)


def near(a, b, msg):
	check(abs(a - b) <= 1e-9 * max(abs(a), abs(b)), '%s: got %r, expected %r',
			msg, a, b)


@prop(st.tuples(st.one_of(treebanks(maxtrees=4),
		treebanks(maxtrees=2, maxleaves=14, maxarity=5)), st.booleans()), quick=1500,
		rule='a repeated subtree')
def decorated(arg):
	"""Decorating adds unique identifiers to all but the root node; when
	memoizing, exactly the identical subtrees share identifiers."""
	items, memoize = arg
	trees, sents = prepare(items)
	dec = TreeDecorator(memoize=memoize)
	ids = {}  # id => nested tree
	byvalue = {}
	shared = False
	for tree, sent in zip(trees, sents):
		x = dec.decorate(tree, sent)
		same(x.label, tree.label, 'root')
		nest = list(subnodes(nested(tree, sent)))
		nodes, orig = list(x.subtrees()), list(tree.subtrees())
		same(len(nodes), len(orig), 'nodes')
		same(x.leaves(), tree.leaves(), 'leaves')
		for a, b, n in list(zip(nodes, orig, nest))[1:]:
			same(len(a), len(b), 'structure')
			same(a.label.split('@')[0], b.label, 'label')
			check('@' in a.label, 'no identifier')
			if a.label in ids:
				shared = True
				check(memoize and ids[a.label] == n,
						'different nodes with same id: %s', a.label)
			ids[a.label] = n
			if memoize:
				same(byvalue.setdefault(n, a.label), a.label,
						'equal subtrees get same id')
	return shared


@prop(treebanks(maxtrees=3), quick=800, rule='more than 100 fragments')
def frequencies(items):
	"""Counts of subtrees and nodes."""
	trees, sents = prepare(items)
	dec = TreeDecorator()
	fd, ntfd = Counter(), Counter()
	total, nodes = Counter(), Counter()
	for tree, sent in zip(trees, sents):
		x = dec.decorate(tree, sent)
		n = nodefreq(tree, x, fd, ntfd)
		nest = nested(tree, sent)
		same(n, len(fragments(nest)), 'number of fragments at root')
		for a, b in zip(list(subnodes(nest)), x.subtrees()):
			m = len(fragments(a))
			total[a[0][0][0]] += m
			nodes[a[0][0][0]] += 1
			nodes[b.label] += 1
			if '@' in b.label:
				total[b.label] += m
	same(dict(fd), dict(total), 'number of subtrees per label')
	same({a: b for a, b in ntfd.items() if '@' in a},
			{a: b for a, b in nodes.items() if '@' in a}, 'nodes')
	for label in {a.label for t in trees for a in t.subtrees()}:
		roots = sum(t.label == label for t in trees)
		check(nodes[label] - roots <= ntfd[label] <= nodes[label],
				'nodes with label %s', label)
	return sum(total.values()) > 100
