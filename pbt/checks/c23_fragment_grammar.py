"""Conversion of fragments to grammar rules, and back."""
import re
from collections import Counter, defaultdict
from hypothesis import strategies as st
from core import prop, check, same
from discodop.grammar import dopgrammar, compiletsg, flatten, UniqueIDs
from discodop.treetransforms import addfanoutmarkers
from discodop.tree import Tree, DrawTree, brackettree
import gens

NEED = ('bit', )
ASSUMPTIONS = ["labels do not contain '@', '{', '}', '='; trees are "
		'canonicalized and have fan-out markers']
NUMRE = re.compile('<[0-9]+')
WORD = st.sampled_from(('a', 'b', ',', '-LRB-', '3=4', 'x@y', '}<1>', '0=',
		'{0}', '\u00e9', '=', 'a=b'))
SPECS = dict(word=WORD, phrasal=('S', 'NP', 'VP|<NP>', 'X'),
		pos=('A', 'B', ',', 'NP'), minleaves=3, maxleaves=13, maxarity=4)


def runs(leaves):
	"""List of maximal contiguous runs of leaves."""
	result = []
	for a in sorted(leaves):
		if result and result[-1][-1] == a - 1:
			result[-1].append(a)
		else:
			result.append([a])
	return result


def marked(spec):
	"""Add fan-out markers."""
	n = gens.blocks(gens.leavesof(spec))
	return [spec[0] + ('_%d' % n if n > 1 else ''),
			[a if isinstance(a, int) else marked(a) for a in spec[1]]]


def cut(node, bits, top=True):
	"""Select a fragment of node; returns spec with frontier nodes marked."""
	if not top and next(bits, 0) == 3:
		return [node[0], None, gens.leavesof(node)]
	if gens.ispre(node):
		return node
	return [node[0], [cut(a, bits, False) for a in node[1]]]


def frontier(frag):
	"""List of frontier nodes and preterminals with set of leaves"""
	if frag[1] is None or gens.ispre(frag):
		return [frag]
	return [b for a in frag[1] for b in frontier(a)]


def fragstr(frag, sent):
	"""String in the format produced by fragment extraction."""
	spans = sorted(b for a in frontier(frag)
			for b in runs(a[2] if a[1] is None else a[1]))
	num, n = {}, 0  # gaps have a width of one
	for prev, b in zip([None] + spans, spans):
		n += prev is not None and prev[-1] + 1 != b[0]
		num[b[0]] = n
		n += 1

	def visit(x):
		if x[1] is None:
			return '(%s %s)' % (x[0], ' '.join('%d=' % num[b[0]]
					for b in runs(x[2])))
		elif gens.ispre(x):
			return '(%s %d=%s)' % (x[0], num[x[1][0]], sent[x[1][0]])
		return '(%s %s)' % (x[0], ' '.join(visit(a) for a in x[1]))
	return visit(frag), spans, num


def nonterms(frag):
	return 0 if frag[1] is None or gens.ispre(frag) else sum(
			1 + nonterms(a) for a in frag[1])


class Frag:
	"""A reference fragment."""
	def __init__(self, frag, sent):
		self.root = frag[0]
		self.str, self.spans, self.num = fragstr(frag, sent)
		self.nonterms = nonterms(frag)
		self.front = []  # (symbol, string, first index, words)
		for a in frontier(frag):
			bl = runs(a[2] if a[1] is None else a[1])
			idx = [self.num[b[0]] for b in bl]
			word = None if a[1] is None else sent[a[1][0]]
			self.front.append((
				a[0] if word is None else '%s@%s' % (a[0], word),
				'(%s %s)' % (a[0], ' '.join('%d=%s' % (n, word or '')
					for n in idx)), idx, word))
		self.front.sort(key=lambda x: x[2])
		self.lexical = gens.ispre(frag)
		# yield function
		owner = {i: n for n, a in enumerate(self.front) for i in a[2]}
		yf, prev = [], None
		leaves = sorted(b for a in self.spans for b in a)
		starts = {b[0]: b for b in self.spans}
		end = None
		for first in sorted(starts):
			if first != end:
				yf.append(())
			yf[-1] += (owner[self.num[first]], )
			end = starts[first][-1] + 1
		assert leaves
		self.yf = tuple(yf)


def unaries(draw, node, labels=SPECS['phrasal']):
	"""Add up to two unary nodes over node."""
	for _ in range(draw(st.integers(0, 2))):
		node = [draw(st.sampled_from(labels)), [node]]
	return node


@st.composite
def cases(draw, maxtrees=3):
	"""Treebank and a set of cuts: (tree number, node number, bits)."""
	n = draw(st.integers(1, maxtrees))
	items = [draw(gens.treesents(**SPECS)) for _ in range(n)]
	small = draw(st.integers(0, 3)) == 0
	if small:  # fragments that only differ in internal nodes
		num = draw(st.integers(1, 2))
		sent = [draw(WORD) for _ in range(num)]
		root = draw(st.sampled_from(SPECS['phrasal']))
		pos = [draw(st.sampled_from(SPECS['pos'])) for _ in range(num)]
		for _ in range(draw(st.integers(2, 3))):
			node = [root, [unaries(draw, [a, [i]])
					for i, a in enumerate(pos)]]
			items.append((unaries(draw, node, [root]), sent))
		maxtrees = len(items)
	n = draw(st.integers(2, 8))
	cuts = [(maxtrees - 1 - i, 0, draw(st.sampled_from([0, 0,
			3, 12, 15, 48, 63]))) for i in range(3 if small else 0)]
	cuts += [(draw(st.integers(0, maxtrees - 1)), draw(st.integers(0, 20)),
			draw(st.integers(0, 4 ** 12 - 1))) for _ in range(n)]
	return items, cuts


def prepare(items, cuts):
	"""Reference fragments with occurrences."""
	specs = [marked(gens.canonspec(a)) for a, _ in items]
	sents = [b for _, b in items]
	frags, occ = {}, defaultdict(list)
	for n, m, bits in cuts:
		n %= len(specs)
		nodes = list(gens.nodesof(specs[n]))
		x = cut(nodes[m % len(nodes)],
				iter([(bits >> 2 * i) & 3 for i in range(12)]))
		f = Frag(x, sents[n])
		frags.setdefault(f.str, f)
		occ[f.str].append(n)
	return specs, sents, frags, dict(occ)


def expand(sym, byfirst, rules):
	"""Expand binarized rule; returns (symbols, components)."""
	r, yf = rules
	parts = []
	offset, syms = 0, []
	for s in r[1:]:
		if '}<' in s.split('@')[0] and s in byfirst:
			check(len(byfirst[s]) == 1, 'rule for %s not unique', s)
			same(byfirst[s][0][1], 1, 'weight of auxiliary rule')
			x, comps = expand(s, byfirst, byfirst[s][0][0])
			parts.append([[offset + a for a in c] for c in comps])
			syms.extend(x)
			offset += len(x)
		else:
			parts.append(offset)
			syms.append(s)
			offset += 1
	result = []
	for arg in yf:
		result.append([])
		for n in arg:
			if isinstance(parts[n], list):
				check(parts[n], 'too few components in %r', rules)
				result[-1].extend(parts[n].pop(0))
			else:
				result[-1].append(parts[n])
	check(not any(a for a in parts if isinstance(a, list)),
			'unused components in %r', rules)
	return syms, result


def verify(grammar, backtransform, frags, weight):
	"""Check that grammar is equivalent to the set of fragments;
	returns start rule for each fragment."""
	byfirst = defaultdict(list)
	for rule, w in grammar:
		byfirst[rule[0][0]].append((rule, w))
	same(len({a for a, _ in grammar}), len(grammar), 'duplicate rules')
	want = Counter(a for a, b in frags.items() if not b.lexical)
	same(len(backtransform), sum(want.values()), 'number of templates')
	found, starts = [], {}
	for (rule, w), template in zip(grammar, backtransform):
		check('}<' not in rule[0][0] and rule[0][1] != 'Epsilon',
				'rule not aligned with template: %r', rule)
		check(len(rule[0]) <= 3, 'rule not binarized: %r', rule)
		syms, comps = expand(rule[0][0], byfirst, rule)
		cands = [f for f in frags.values() if not f.lexical
				and [a[0] for a in f.front] == syms
				and template.format(*[a[1] for a in f.front]) == f.str
				and f.root == rule[0][0]
				and f.str not in found]
		check(cands, 'no fragment for template %r with %r', template, syms)
		f = cands[0]
		found.append(f.str)
		starts[f.str] = rule
		same(tuple(map(tuple, comps)), f.yf, 'yield function of %r', f.str)
		same(w, weight(f), 'weight of %s', f.str)
	# every symbol of a lexicalized frontier produces exactly its word
	lexical = {(f.front[0][0].split('@')[0], f.front[0][3]): f
			for f in frags.values() if f.lexical}
	words = {(a[0], a[3]) for f in frags.values() if not f.lexical
			for a in f.front if a[3] is not None}
	seen = set()
	for n, (rule, w) in enumerate(grammar):
		r, yf = rule
		if r[1] == 'Epsilon':
			same(len(yf), 1, 'lexical rule')
			key = r[0], yf[0]
			seen.add(key)
			if key in words:
				same(w, 1, 'weight of lexical rule')
			else:
				check(key in lexical, 'unexpected lexical rule %r', rule)
				same(w, weight(lexical[key]), 'weight of %r', rule)
		else:
			check(n < len(backtransform) or '}<' in r[0],
					'unexpected rule: %r', rule)
	check(words <= seen and set(lexical) <= seen, 'missing lexical rule')
	order = [(r[1] == 'Epsilon', n >= len(backtransform))
			for n, ((r, _), _) in enumerate(grammar)]
	same(order, sorted(order), 'order of rules')
	return found, starts


@prop(cases(), quick=1200, rule='at least two non-lexical fragments with three '
		'or more frontier nodes')
def fragmentgrammar(arg):
	"""Rules and templates are equivalent to fragments; frequencies, EWE and
	Bonnema weights follow their definition."""
	items, cuts = arg
	specs, sents, frags, occ = prepare(items, cuts)
	trees = [addfanoutmarkers(gens.mk(gens.canonspec(a), Tree))
			for a, _ in items]
	before = repr(occ)
	grammar, bt, alt, fragments = dopgrammar(trees, occ)
	same(repr(occ), before, 'argument modified')
	found, starts = verify(grammar, bt, frags, lambda f: len(occ[f.str]))
	same(fragments, [(a, occ[a]) for a in found],
			'fragments in order of grammar rules')
	# weights
	nodes = Counter(a[0] for spec in specs for a in gens.nodesof(spec))
	pertree = Counter(n for a in occ.values() for n in a)
	rawewe = {a: sum(1 / pertree[n] for n in b) for a, b in occ.items()}
	ntsum = Counter()
	for a, f in frags.items():
		ntsum[f.root] += rawewe[a]
	key = {starts[a]: a for a in found}
	key.update({((f.root, 'Epsilon'), (f.front[0][3], )): f.str
			for f in frags.values() if f.lexical})
	for n, (rule, _) in enumerate(grammar):
		if rule in key:
			f = frags[key[rule]]
			near(alt['bon'][n], 2. ** -f.nonterms * len(occ[f.str])
					/ nodes[f.root], 'bonnema %s' % f.str)
			near(alt['ewe'][n], rawewe[f.str] / ntsum[f.root],
					'ewe %s' % f.str)
			same(alt['shortest'][n], 0.5, 'shortest')
		else:
			same((alt['bon'][n], alt['ewe'][n], alt['shortest'][n]),
					(1, 1, 1), 'weight of auxiliary rule')
	for a in alt.values():
		same(len(a), len(grammar), 'number of alternate weights')
	big = sum(len(f.front) > 2 for f in frags.values())
	return ['disc'] * any(len(f.yf) > 1 for f in frags.values()) + ['big'] if (
			big > 1) else ()


def near(a, b, msg):
	check(abs(a - b) <= 1e-9 * max(abs(a), abs(b)), '%s: got %r, expected %r',
			msg, a, b)


@prop(st.tuples(cases(), st.lists(st.integers(1, 9), min_size=12, max_size=12)),
		quick=800, rule='at least two non-lexical fragments')
def weighted(arg):
	"""The same for fragments with fixed weights."""
	(items, cuts), weights = arg
	_, _, frags, _ = prepare(items, cuts)
	tsg = {a: w / 4 for a, w in zip(frags, weights)}
	grammar, bt, alt = compiletsg(tsg)
	verify(grammar, bt, frags, lambda f: tsg[f.str])
	same(alt, {}, 'alternate weights')
	return sum(not f.lexical for f in frags.values()) > 1


@prop(st.tuples(cases(), st.lists(st.tuples(st.integers(0, 9),
		st.sampled_from('abz')), max_size=4)),
		quick=500, rule='extra rules, of which one already in grammar')
def extrarules(arg):
	"""Extra lexical rules are added to the weights of existing rules, and do
	not affect alignment of templates."""
	(items, cuts), extra = arg
	_, _, frags, occ = prepare(items, cuts)
	trees = [addfanoutmarkers(gens.mk(gens.canonspec(a), Tree))
			for a, _ in items]
	rules = {(('ABC'[n % 3], 'Epsilon'), (w, )): n + 1 for n, w in extra}
	have = [r for r in dopgrammar(trees, occ)[0] if r[0][0][1] == 'Epsilon']
	if extra and have:
		rules[have[0][0]] = 3
	base = dopgrammar(trees, occ)
	new = dopgrammar(trees, occ, extrarules=rules)
	want = dict(base[0])
	for a, b in rules.items():
		want[a] = want.get(a, 0) + b
	got = dict(new[0])
	same(got, want, 'frequencies with extra rules')
	same(new[1], base[1], 'templates')
	same(new[3], base[3], 'fragments')
	same([a for a, _ in new[0]][:len(new[1])],
			[a for a, _ in base[0]][:len(new[1])], 'aligned rules')
	sums = Counter()
	for (r, _), w in zip([a for a, _ in new[0]], new[2]['ewe']):
		sums[r[0]] += w
	for label, w in sums.items():
		near(w, 1, 'sum of EWE weights of %s' % label)
	return bool(rules) and len(got) < len(base[0]) + len(rules)


@prop(cases(maxtrees=2), quick=500, rule='a fragment of at least three levels')
def flattening(arg):
	"""A fragment gives the same rules up to identifiers when flattened after
	other fragments."""
	items, cuts = arg
	_, _, frags, _ = prepare(items, cuts)
	ids = UniqueIDs()
	for frag in frags:
		prods, template = flatten(frag, ids)
		again, template2 = flatten(frag, UniqueIDs())
		same(template2, template, 'template')
		same(len(again), len(prods), 'rules')
		same([yf for _, yf in again], [yf for _, yf in prods], 'yf')
		same([NUMRE.sub('<', a) for r, _ in again for a in r],
				[NUMRE.sub('<', a) for r, _ in prods for a in r], 'labels')
	return any(a.count('(((') or re.search(r'\([^ ]+ \([^ ]+ \([^ ]+ \(', a)
			for a in frags)
