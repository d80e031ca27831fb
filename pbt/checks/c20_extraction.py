"""Reading off LCFRS productions from trees."""
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree, ImmutableTree, escape, unescape
from discodop.grammar import (lcfrsproductions, treebankgrammar, sortgrammar,
		ranges, rangeheads, subsetgrammar, printrule, cartpi, UniqueIDs)
from discodop.treetransforms import addfanoutmarkers, addbitsets, binarize
import gens

NEED = ('bit', )
ASSUMPTIONS = ['phrasal nodes have only phrasal or preterminal children']
WORD = st.sampled_from(gens.WORDS[:5] + ('(', ')', 'é', '-LRB-', '#LRB#'))
SPECS = dict(word=WORD, phrasal=('S', 'NP', 'VP', 'X'), pos=('A', 'B', '.'),
		maxleaves=9, maxarity=5, shuffle=True)
CLASSES = dict(Tree=Tree, ParentedTree=ParentedTree,
		ImmutableTree=lambda a, b: ImmutableTree(a, b))


def production(node, sent):
	"""Reference: a word by word definition."""
	if gens.ispre(node):
		return (node[0], 'Epsilon'), (escape(sent[node[1][0]]), )
	owner = {idx: n for n, a in enumerate(node[1]) for idx in gens.leavesof(a)}
	yf, prev = [], None
	for idx in range(max(owner) + 1):
		if idx not in owner:
			prev = None
			continue
		if prev is None:
			yf.append(())
		if owner[idx] != prev:
			yf[-1] += (owner[idx], )
		prev = owner[idx]
	return (node[0], ) + tuple(a[0] for a in node[1]), tuple(yf)


def instantiate(prods):
	"""Derive sentence from pre-order list of productions; returns list of
	components for the first nonterminal."""
	prods = iter(prods)

	def visit(label):
		r, yf = next(prods)
		same(r[0], label, 'label of production')
		if r[1] == 'Epsilon':
			return [list(yf)]
		kids = [visit(a) for a in r[1:]]
		result = []
		for arg in yf:
			result.append([])
			for n in arg:
				check(kids[n], 'child %d has too few components: %s', n, yf)
				result[-1].extend(kids[n].pop(0))
		check(not any(kids), 'unused components: %s %s', r, yf)
		return result
	return visit


@prop(st.tuples(gens.treesents(**SPECS), st.sampled_from(sorted(CLASSES)),
		st.booleans(), st.sampled_from([0] * 15 + [1, 60, 64, 130]),
		st.integers(0, 9)), quick=3000, rule='discontinuous')
def productions(arg):
	"""One production per node, in pre-order, with the right yield function;
	together they derive exactly the sentence."""
	(spec, sent), cls, bitsets, pad, at = arg
	spec, sent = gens.padded(spec, sent, at, pad)
	tree = gens.mk(spec, CLASSES[cls])
	if bitsets:
		tree = addbitsets(tree)
	before = str(tree)
	got = lcfrsproductions(tree, sent)
	same(str(tree), before, 'tree modified')
	same(got, [production(a, sent) for a in gens.nodesof(spec)], 'productions')
	same(instantiate(got)(spec[0]), [[escape(a) for a in sent]], 'sentence')
	for r, yf in got:
		same(printrule(r, yf), ','.join(''.join(map(str, a)) for a in yf)
				+ '\t' + ' '.join(r), 'printrule')
	return gens.isdisc(spec)


@prop(st.tuples(gens.treesents(**SPECS), st.lists(st.booleans(), min_size=9,
		max_size=9), st.booleans(), st.integers(1, 3)), quick=1500,
		rule='frontier node with more than one index')
def fragments(arg):
	"""Frontier non-terminals dominate indices without word; they are skipped
	or get an empty production."""
	(spec, sent), drop, frontiers, depth = arg

	def cut(a, d):
		if gens.ispre(a):
			return a
		kids = []
		for b in a[1]:
			if d >= depth and drop[min(gens.leavesof(b)) % 9] and (
					not gens.ispre(b)):
				kids.append([b[0], gens.leavesof(b)])
			else:
				kids.append(cut(b, d + 1))
		return [a[0], kids]
	frag = cut(spec, 0)
	words = list(sent)
	# frontiers
	fnodes = [a for a in gens.nodesof(frag) if gens.ispre(a)
			and (len(a[1]) > 1 or drop[a[1][0] % 9])]
	for a in fnodes:
		for b in a[1]:
			words[b] = None
	want = []
	for a in gens.nodesof(frag):
		if gens.ispre(a) and words[a[1][0]] is None:
			if frontiers:
				want.append(((a[0], ), ()))
		else:
			want.append(production(a, words))
	same(lcfrsproductions(gens.mk(frag, Tree), words, frontiers=frontiers),
			want, 'productions of fragment')
	return any(len(a[1]) > 1 for a in fnodes)


@prop(st.tuples(gens.treesents(**SPECS), st.sampled_from(['dup', 'range',
		'empty', 'nosent', 'str']), st.integers(0, 99)), quick=400,
		rule='always')
def malformed(arg):
	"""Trees that are not valid are refused with ValueError."""
	(spec, sent), kind, n = arg
	tree = gens.mk(spec, Tree)
	pre = [a for a in tree.subtrees() if isinstance(a[0], int)]
	a = pre[n % len(pre)]
	if kind == 'dup':
		if len(pre) == 1:
			return False
		a[0] = (a[0] + 1) % len(sent)
	elif kind == 'range':
		a[0] = len(sent) + n % 3 if n % 2 else -1 - n % 3
	elif kind == 'empty':
		a[:] = []
	elif kind == 'nosent':
		sent = []
	else:
		a[0] = 'x'
	raises((ValueError, IndexError) if kind == 'empty' else ValueError,
			lcfrsproductions, tree, sent)
	return True


@prop(st.tuples(st.lists(gens.treesents(**SPECS), min_size=1, max_size=5),
		st.booleans(), st.lists(st.tuples(st.integers(0, 20),
			st.integers(1, 9)), max_size=3)), quick=800,
		rule='repeated production, extra rules')
def treebank(arg):
	"""Treebank grammars count productions; order is fixed."""
	items, markers, extra = arg
	trees = [gens.mk(a, Tree) for a, _ in items]
	specs = [a for a, _ in items]
	if markers:
		trees = [addfanoutmarkers(a) for a in trees]
		specs = [gens.unmk(a) for a in trees]
	sents = [b for _, b in items]
	want = Counter(production(a, sent) for spec, sent in zip(specs, sents)
			for a in gens.nodesof(spec))
	repeated = max(want.values()) > 1
	known = sorted(want)
	extrarules = {}
	for m, w in extra:
		rule = known[m] if m < len(known) else (('Z%d' % m, 'Epsilon'),
				('w%d' % (m % 3), ))
		extrarules[rule] = w
	want.update(extrarules)
	got = treebankgrammar(trees, sents, extrarules or None)
	same(len(got), len(want), 'number of rules')
	same(dict(got), dict(want), 'grammar')
	keys = [order(a) for a in got]
	same(keys, sorted(keys), 'order')
	check(subsetgrammar(got, got[::-1]), 'subset of itself')
	if len(got) > 1:
		check(not subsetgrammar(got, got[1:]), 'not a subset')
		check(subsetgrammar(got[1:], got), 'subset')
	return bool(extra and repeated)


def order(a):
	(r, yf), _ = a
	lex = r[1] == 'Epsilon'
	return lex, unescape(yf[0]) if lex else '', '}<' in r[0], r[0]


RULE = st.one_of(
		st.tuples(st.tuples(st.sampled_from('ABC'), st.just('Epsilon')),
			st.tuples(st.sampled_from(['a', 'b', '!', 'é', '#LRB#', '#RRB#',
				'%', '"']))),
		st.tuples(st.tuples(st.sampled_from(['A', 'B', 'B}<0>', 'A}<1>', 'Z']),
			st.sampled_from('ABC')), st.just(((0, ), ))),
		st.tuples(st.tuples(st.sampled_from(['A', 'B', 'B}<0>', 'A}<1>', 'Z']),
			st.sampled_from('ABC'), st.sampled_from('AB')),
			st.sampled_from([((0, 1), ), ((0, ), (1, ))])))


@prop(st.lists(st.tuples(RULE, st.integers(1, 9)), max_size=12,
		unique_by=lambda a: a[0]), quick=1500,
		rule='all three kinds of rules')
def sorting(items):
	"""Sorting groups rules by kind, and permutes alternative weights along."""
	import numpy as np
	got = sortgrammar(items)
	same(sorted(got), sorted(items), 'rules')
	keys = [order(a) for a in got]
	same(keys, sorted(keys), 'order')
	# stable
	pos = {a: n for n, (a, _) in enumerate(items)}
	for x, y in zip(got, got[1:]):
		check(order(x) != order(y) or pos[x[0]] < pos[y[0]], 'not stable')
	alt = dict(one=np.array([float(n) for n in range(len(items))]),
			two=np.array([w * .5 for _, w in items]))
	got2, alt2 = sortgrammar(items, alt)
	same(got2, got, 'with weights')
	same([pos[a] for a, _ in got], [int(n) for n in alt2['one']], 'weights')
	same([w * .5 for _, w in got], list(alt2['two']), 'weights')
	return len({k[0] for k in keys}) > 1 and any(k[2] for k in keys)


@prop(st.tuples(st.lists(st.integers(0, 40), unique=True).map(sorted),
		st.lists(st.lists(st.integers(0, 3), max_size=3), max_size=4),
		st.lists(st.sampled_from(['a', 'b', 'c', None]), max_size=8)),
		quick=1000, rule='several ranges')
def auxiliary(arg):
	"""Ranges, cartesian product, unique identifiers."""
	nums, seqs, keys = arg
	got = list(ranges(nums))
	same(sum(got, []), nums, 'ranges')
	for a in got:
		same(a, list(range(a[0], a[-1] + 1)), 'contiguous')
	check(all(a[-1] + 1 < b[0] for a, b in zip(got, got[1:])), 'gaps')
	same(rangeheads(nums), [a[0] for a in got], 'heads')
	from itertools import product
	same(sorted(cartpi(seqs)), sorted(product(*seqs)), 'product')
	ids = UniqueIDs('p')
	seen = {}
	used = set()
	for k in keys:
		if k is None:
			a = next(ids)
		else:
			a = ids[k]
			if k in seen:
				same(a, seen[k], 'same key')
				continue
			seen[k] = a
		check(a not in used and a.startswith('p'), 'id not unique: %s', a)
		used.add(a)
	return len(got) > 2
