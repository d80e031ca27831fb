"""C41: the osTAG reduction generates the derivations of the TAG."""
import re
import shutil
import tempfile
from collections import Counter, defaultdict
from hypothesis import strategies as st
from core import prop, check, same
from discodop import grammar
from discodop.tree import brackettree

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
		'disambiguation')
NONTERMS = ('S', 'A', 'B')
POS = ('p', 'q')
WORDS = ('x', 'y', 'z')
ODD = ('x', '(', '}<1>', '\u00e9', '{0}', '*x', '3:3', '2=', 'x@y', '[z]')
ASSUMPTIONS = ['no preterminal has the same label as the root of an auxiliary '
		'tree']
ADDRESS = re.compile(r'@[0-9]+-[0-9]+')


# --- trees of a TAG: [label, children]; substitution site: [label, None];
# foot node: [label, '*']; preterminal: [label, word]

def todiscbracket(tree):
	n = [-1]

	def rec(node):
		if isinstance(node[1], list):
			return '(%s %s)' % (node[0], ' '.join(rec(a) for a in node[1]))
		n[0] += 1
		return '(%s %d=%s)' % (node[0], n[0], '' if node[1] is None
				else node[1].replace('(', '#LRB#').replace(')', '#RRB#'))

	return rec(tree)


def subtrees(node):
	yield node
	if isinstance(node[1], list):
		for a in node[1]:
			yield from subtrees(a)


def spineof(node):
	"""The path from root to foot node."""
	if node[1] == '*':
		return [node]
	if isinstance(node[1], list):
		for a in node[1]:
			path = spineof(a)
			if path:
				return [node] + path
	return []


@st.composite
def internal(draw, label, depth, words, lex=False):
	"""A phrasal node with given label."""
	if label in POS:
		return [label, draw(st.sampled_from(words))]
	children = []
	for n in range(draw(st.integers(1, 2))):
		kind = draw(st.integers(0, 5))
		if kind <= 1 + lex or (kind > 3 and depth <= 1):
			children.append([draw(st.sampled_from(POS)),
					draw(st.sampled_from(words))])
		elif kind <= 3:
			children.append([draw(st.sampled_from(NONTERMS + POS)), None])
		else:
			children.append(draw(internal(draw(st.sampled_from(NONTERMS)),
					depth - 1, words, lex)))
	return [label, children]


@st.composite
def auxiliary(draw, words, lex=False):
	root = draw(st.sampled_from(('S', ) + NONTERMS))
	node = [root, '*']
	for n in range(draw(st.integers(1, 3))):
		label = draw(st.sampled_from(NONTERMS))
		children = [node]
		if draw(st.integers(0, 3)):
			kind = draw(st.integers(0, 4))
			if kind <= 1 + lex:
				other = [draw(st.sampled_from(POS)),
						draw(st.sampled_from(words))]
			elif kind == 2:
				other = [draw(st.sampled_from(NONTERMS + POS)), None]
			else:
				other = draw(internal(draw(st.sampled_from(NONTERMS)), 2,
						words, lex))
			children.insert(draw(st.integers(0, 1)), other)
		node = [label, children]
	return [root, node[1]]


@st.composite
def weights(draw):
	return draw(st.one_of(st.integers(1, 9),
			st.sampled_from((0.5, 0.25, 1.5, 2.75, 0.0625))))


@st.composite
def tags(draw, maxinit=4, maxaux=3, lex=False):
	"""A TAG: (list of (init tree, weight), list of (aux tree, weight))."""
	words = draw(st.sampled_from((WORDS, WORDS, ODD)))
	init = [(draw(internal(
			draw(st.sampled_from(('S', 'S') + NONTERMS + POS))
			if n else 'S', draw(st.integers(1, 3)), words, lex)),
			draw(st.integers(1, 9) if lex else weights()))
			for n in range(draw(st.integers(1, maxinit)))]
	aux = [(draw(auxiliary(words, lex)),
			draw(st.integers(1, 9) if lex else weights()))
			for _ in range(draw(st.integers(0, maxaux)))]
	return init, aux, draw(st.integers(2, 4))


# --- the semantics of a TAG -----------------------------------------------------

class Tag:
	"""Reference: the derivations of a TAG with the off-spine constraint.

	Nodes that can be adjoined to: the phrasal nodes (i.e., neither
	substitution sites, foot nodes, nor preterminals) of the elementary trees,
	excluding the ones on the spine of an auxiliary tree."""
	def __init__(self, init, aux):
		self.init, self.aux = defaultdict(list), defaultdict(list)
		for tree, w in init.items():
			self.init[tree[0]].append((tree, w))
		for tree, w in aux.items():
			self.aux[tree[0]].append((tree, w))
		self.memo = {}

	def root(self, label, budget):
		"""Derived trees for a substitution site; used budget."""
		key = label, budget
		if key in self.memo:
			return self.memo[key]
		self.memo[key] = result = Counter()
		if budget <= 0:
			return result
		aux = self.aux[label] if any(isinstance(tree[1], tuple)
				for tree, _ in self.init[label]) else []
		total = (sum(w for _, w in self.init[label])
				+ sum(w for _, w in aux))
		for tree, w in self.init[label]:
			for (t, used), p in self.node(tree, budget - 1).items():
				result[t, used + 1] += p * w / total
		for tree, w in aux:
			self.adjoin(tree, w / total, label, budget, result)
		return result

	def adjoin(self, tree, weight, site, budget, result):
		if budget > 0:
			for (t, used), p in self.spine(tree, site, budget - 1).items():
				result[t, used + 1] += p * weight

	def site(self, node, budget):
		"""A node of an elementary tree (not on the spine, not the root of an
		initial tree)."""
		if node[1] is None:
			return self.root(node[0], budget)
		key = node, budget
		if not isinstance(node[1], tuple):
			return Counter({(node, 0): 1})
		# identical nodes have different addresses but equal distributions
		if key in self.memo:
			return self.memo[key]
		self.memo[key] = result = Counter()
		total = 1 + sum(w for _, w in self.aux[node[0]])
		for (t, used), p in self.node(node, budget).items():
			result[t, used] += p / total
		for tree, w in self.aux[node[0]]:
			self.adjoin(tree, w / total, node, budget, result)
		return result

	def node(self, node, budget):
		"""Without adjunction."""
		if not isinstance(node[1], tuple):
			return Counter({(node, 0): 1})
		return combine(node[0], node[1], budget, self.site)

	def spine(self, node, site, budget):
		"""A node on the spine of an auxiliary tree adjoined to a site."""
		if node[1] == '*':
			return (self.root(site, budget) if isinstance(site, str)
					else self.site(site, budget))
		return combine(node[0], node[1], budget,
				lambda child, n: self.spine(child, site, n)
				if child[1] == '*' or spineof(thaw(child)) else
				self.site(child, n))


def combine(label, children, budget, func):
	states = Counter({((), 0): 1})
	for child in children:
		new = Counter()
		for (trees, used), p in states.items():
			for (t, x), q in func(child, budget - used).items():
				new[trees + (t, ), used + x] += p * q
		states = new
	return Counter({((label, trees), used): p
			for (trees, used), p in states.items()})


def freeze(node):
	return (node[0], tuple(freeze(a) for a in node[1])
			if isinstance(node[1], list) else node[1])


def thaw(node):
	return [node[0], [thaw(a) for a in node[1]]
			if isinstance(node[1], tuple) else node[1]]


# --- the semantics of the resulting grammar -------------------------------------

class Cfg:
	"""Derivations of the grammar, where addresses and adjunctions are
	removed."""
	def __init__(self, rulesstr, lexicon):
		self.rules = defaultdict(list)
		self.total = Counter()
		self.memo = {}
		seen = set()
		for line in rulesstr.splitlines():
			*syms, yf, w = line.split('\t')
			check(2 <= len(syms) <= 3 and yf == ('0' if len(syms) == 2
					else '01'), 'malformed rule %r', line)
			check(tuple(syms) not in seen, 'duplicate rule %r', line)
			seen.add(tuple(syms))
			self.rules[syms[0]].append((tuple(syms[1:]), float(w)))
		for line in lexicon.splitlines():
			word, *tags = line.split('\t')
			for tag in tags:
				lhs, w = tag.split(' ')
				self.rules[lhs].append((word, float(w)))
		for lhs, rules in self.rules.items():
			self.total[lhs] = sum(w for _, w in rules)
			check(all(w > 0 for _, w in rules), 'weight not positive: %r', lhs)

	def isadjunction(self, rhs):
		return (not isinstance(rhs, str) and len(rhs) == 1
				and '[' in rhs[0])

	def expand(self, label, budget):
		key = label, budget
		if key in self.memo:
			return self.memo[key]
		self.memo[key] = result = Counter()
		spine = '[' in label
		for rhs, w in self.rules[label]:
			prob = w / self.total[label]
			if not spine and self.isadjunction(rhs):
				cost = 1
			else:
				cost = int('@' not in label)
			if cost > budget:
				continue
			name = ADDRESS.sub('', re.sub(r'\$?\[.*', '', label))
			if isinstance(rhs, str):
				result[(name, rhs), cost] += prob
			elif not spine and self.isadjunction(rhs):
				for (t, used), p in self.expand(rhs[0], budget - 1).items():
					result[t, used + 1] += p * prob
			else:
				for (t, used), p in combine(name, rhs, budget - cost,
						self.expand).items():
					result[t, used + cost] += p * prob
		return result


# --- properties -----------------------------------------------------------------

def convert(init, aux):
	"""Dictionaries of unique trees in generated and discbracket format."""
	init1 = {freeze(a): w for a, w in init}
	aux1 = {freeze(a): w for a, w in aux}
	init2 = {todiscbracket(thaw(a)): w for a, w in init1.items()}
	aux2 = {todiscbracket(thaw(a)): w for a, w in aux1.items()}
	check(len(init1) == len(init2) and len(aux1) == len(aux2), 'harness')
	return init1, aux1, init2, aux2


def classes(aux, derivs):
	result = set()
	if any('*' in str(a) for a in aux):
		result.add('aux')
	if len({used for _, used in derivs}) > 1:
		result.add('sizes')
	return result


@prop(tags(), 300, rule='some derivation has an adjunction')
def reduction(case):
	"""The grammar generates the same derived trees with the same
	probabilities as the TAG."""
	init, aux, budget = case
	init, aux, init2, aux2 = convert(init, aux)
	rules, lexicon = grammar.ostagreduction(init2, aux2)
	got, ref = Cfg(rules, lexicon), Tag(init, aux)
	adjunctions = False
	for label in {a[0] for a in init}:
		a, b = got.expand(label, budget), ref.root(label, budget)
		same(set(a), set(b), 'trees derivable from %r with up to %d '
				'elementary trees', label, budget)
		for key, p in a.items():
			check(abs(p - b[key]) < 1e-5 * b[key],
					'%r: probability %g, expected %g', key, p, b[key])
		adjunctions = adjunctions or bool(a) and a != Tag(
				init, {}).root(label, budget)
	return ('adjunction', ) if adjunctions else ()


@prop(tags(), 150, rule='some derivation has an adjunction')
def packed(case):
	"""With packed graphs, the same trees are derivable."""
	init, aux, budget = case
	init, aux, init2, aux2 = convert(init, aux)
	got = Cfg(*grammar.ostagreduction(init2, aux2, packedgraph=True))
	ref = Tag(init, aux)
	adjunctions = False
	for label in {a[0] for a in init}:
		a, b = got.expand(label, budget), ref.root(label, budget)
		same(set(a), set(b), 'trees derivable from %r with up to %d '
				'elementary trees', label, budget)
		adjunctions = adjunctions or bool(a) and set(a) != set(Tag(
				init, {}).root(label, budget))
	return ('adjunction', ) if adjunctions else ()


@prop(st.tuples(tags(), st.lists(st.tuples(st.sampled_from(POS),
		st.sampled_from(WORDS), st.integers(1, 99)), min_size=1,
		max_size=4)), 100, rule='has extra rules')
def extrarules(case):
	"""Extra lexical rules are added to the weights in the lexicon."""
	(init, aux, _), extra = case
	init, aux, init2, aux2 = convert(init, aux)
	extra = {((pos, 'Epsilon'), (word, )): w for pos, word, w in extra}

	def lex(lexicon):
		result = {}
		for line in lexicon.splitlines():
			word, *pos = line.split('\t')
			for a in pos:
				pos, w = a.split(' ')
				check((word, pos) not in result, 'duplicate %r', (word, pos))
				result[word, pos] = float(w)
		return result

	rules1, lex1 = grammar.ostagreduction(init2, aux2)
	rules2, lex2 = grammar.ostagreduction(init2, aux2, extrarules={
			((lhs, 'Epsilon'), word): w
			for (((lhs, _), word), w) in extra.items()})
	same(sorted(rules2.splitlines()), sorted(rules1.splitlines()), 'rules')
	want = Counter(lex(lex1))
	for ((pos, _), (word, )), w in extra.items():
		want[word, pos] += w
	same(lex(lex2), dict(want), 'lexicon')
	return ('extra', )


@prop(st.tuples(tags(6, 4), st.lists(st.integers(0, 9), max_size=3)), 200,
		rule='a tree has a spine')
def decorate(case):
	"""Every node except roots of initial trees, substitution sites and feet
	has an address; addresses are unique unless nodes are packed; the nodes
	on a spine above the foot are marked; removing the marks gives the
	original tree."""
	(init, aux, _), again = case
	result = set()
	for memoize in (False, True):
		deco = grammar.SpinedTreeDecorator(memoize=memoize)
		seen = {}  # address => subtree
		trees = [(a, False) for a, _ in init] + [(a, True) for a, _ in aux]
		for n in again:
			trees.append(trees[n % len(trees)])
		for tree, spine in trees:
			t, sent = brackettree(todiscbracket(tree), detectdisc=True)
			dec = deco.decorate(t, sent, spine)
			nodes, decnodes = list(subtrees(tree)), list(dec.subtrees())
			same(len(decnodes), len(nodes), 'number of nodes of %r', tree)
			path = spineof(tree)[:-1] if spine else []
			if path:
				result.add('spine')
			labels = set()
			for n, (a, b) in enumerate(zip(nodes, decnodes)):
				m = re.match(r'(.*?)(@[0-9]+-[0-9]+)?(\$?)$', b.label)
				same(m.group(1), a[0], 'label')
				same(bool(m.group(2)), a[1] not in (None, '*')
						and (spine or n > 0), 'node %d of %r has address',
						n, tree)
				same(bool(m.group(3)), any(a is x for x in path),
						'node %d of %r on spine', n, tree)
				if m.group(2):
					if not memoize:
						check(m.group(2) not in labels,
								'duplicate address %r', b.label)
					labels.add(m.group(2))
					same(seen.setdefault(m.group(2), a), a,
							'subtrees with same address')
			if memoize and not spine:
				addr = {}
				for n, (a, b) in enumerate(zip(nodes, decnodes)):
					if n and a[1] is not None:
						same(addr.setdefault(repr(a), b.label), b.label,
								'identical subtrees with different addresses')
			same(str(dec.leaves()), str(t.leaves()), 'leaves')
	return result


# --- with compiled modules ------------------------------------------------------

def yieldof(tree):
	if isinstance(tree[1], tuple):
		return [a for b in tree[1] for a in yieldof(b)]
	return [tree[1]]


def bracketed(tree):
	"""Tree as string with indices as leaves."""
	n = [-1]

	def rec(node):
		if isinstance(node[1], tuple):
			return '(%s %s)' % (node[0], ' '.join(rec(a) for a in node[1]))
		n[0] += 1
		return '(%s %d)' % (node[0], n[0])

	return rec(tree)


def lexicalized(tree):
	return any(a[1] not in (None, '*') for a in subtrees(tree)
			if not isinstance(a[1], list))


@prop(st.tuples(tags(5, 3, True), st.integers(0, 999)), 200,
		rule='more than one derivation, with adjunction')
def parsing(case):
	"""Summing the derivations from parsing with the reduction gives the
	probabilities of the derived trees under the TAG."""
	from math import log
	from discodop import pcfg, plcfrs, disambiguation
	from discodop.containers import Grammar
	(init, aux, _), pick = case
	# every elementary tree has a word: finite number of derivations
	init, aux = ([a for a in b if lexicalized(a[0])] for b in (init, aux))
	init += [([a, 'x'], n + 1) for n, a in enumerate(POS)]
	while True:  # every substitution site can be filled
		roots = {a[0] for a, _ in init}
		init3, aux3 = ([a for a in b if roots.issuperset(n[0]
				for n in subtrees(a[0]) if n[1] is None)]
				for b in (init, aux))
		if len(init3) == len(init) and len(aux3) == len(aux):
			break
		init, aux = init3, aux3
	if not any(a[0][0] == 'S' for a in init):
		return ()
	init.append((['ROOT', [['S', None]]], 1))
	init, aux, init2, aux2 = convert(init, aux)
	rules, lexicon = grammar.ostagreduction(init2, aux2)
	maxlen = 4
	tag = Tag(init, aux)
	derived = Counter()  # tree => prob
	adjoined = set()
	for (t, used), p in tag.root('ROOT', maxlen + 1).items():
		if None not in yieldof(t) and len(yieldof(t)) <= maxlen:
			derived[t] += p
	noadj = {t for t, _ in Tag(init, {}).root('ROOT', maxlen + 1)}
	sents = sorted({tuple(yieldof(t)) for t in derived})
	if not sents:
		return ()
	sent = list(sents[pick % len(sents)])
	want = {bracketed(t): p for t, p in derived.items()
			if yieldof(t) == sent}
	adjoined = any(yieldof(t) == sent and t not in noadj for t in derived)
	tmp = tempfile.mkdtemp(prefix='ostag-', dir='.')
	try:
		for name, data in (('rules', rules), ('lex', lexicon)):
			with open('%s/%s' % (tmp, name), 'w', encoding='utf8') as out:
				out.write(data)
		gram = Grammar(tmp + '/rules', tmp + '/lex', start='ROOT')
	finally:
		shutil.rmtree(tmp)
	for parser in (pcfg, plcfrs):
		chart, msg = parser.parse(sent, gram)
		check(chart, '%s: no parse for %r: %r', parser, sent, msg)
		disambiguation.getderivations(chart, 5000, True)
		results, msg = disambiguation.marginalize('mpp', chart, k=5000,
				ostag=True, sent=sent)
		same(sorted(a for a, _, _ in results), sorted(want),
				'%s: parse trees for %r', parser.__name__, sent)
		for tree, prob, frags in results:
			check(abs(log(prob) - log(want[tree])) < 1e-4,
					'%s: probability of %r: %g, expected %g',
					parser.__name__, tree, prob, want[tree])
	return ('derivs', 'adj') if adjoined else ()


@st.composite
def elementary(draw):
	"""Dictionary of fragments."""
	words = draw(st.sampled_from((WORDS, WORDS, ODD[:-1])))
	result = [[draw(internal(draw(st.sampled_from(NONTERMS)),
			draw(st.integers(2, 6)), words)), draw(st.integers(1, 9))]
			for _ in range(draw(st.integers(1, 4)))]
	# fragments which coincide with an auxiliary tree without its marker
	for frag, _ in list(result):
		pairs = list(recursion(frag))
		if pairs and draw(st.booleans()):
			root, foot = draw(st.sampled_from(pairs))
			result.append([replace(root, foot, [foot[0], None]),
					draw(st.integers(1, 9))])
	return result


@prop(elementary(), 300, rule='some tree is factored')
def induce(case):
	"""Each fragment with a recursive node is factored into pairs of initial
	and auxiliary trees that give the fragment after adjunction."""
	frags = {freeze(a): w for a, w in case}
	got1, got2 = grammar.inducetagfromtsg([(todiscbracket(thaw(a)), w)
			for a, w in frags.items()])
	init, aux = defaultdict(set), defaultdict(set)
	kept = defaultdict(set)
	factored = False
	for frag, w in frags.items():
		tree = thaw(frag)
		pairs = list(recursion(tree)) if lexicalized(tree) else []
		if not pairs and todiscbracket(tree).count('(') > 3:
			init[todiscbracket(tree)].add(w)
		for root, foot in pairs:
			factored = True
			init[todiscbracket(replace(tree, root, foot))].add(w)
			aux[todiscbracket(replace(root, foot, [foot[0], '*']))].add(w)
	for a in list(aux):
		init.pop(re.sub(r'=\*\)', '=)', a), None)
	for name, got, want in (('auxiliary', got2, aux),
			('initial', got1, init)):
		same(sorted(got), sorted(want), '%s trees', name)
		for a, w in got.items():
			check(w in want[a], 'weight %r of %s tree %s; expected one of %r',
					w, name, a, want[a])
	return ('factored', ) if factored else ()


def recursion(tree):
	"""Pairs of nodes, neither of them the root, where one is the closest
	dominating node with the same label of the other."""
	def rec(node, path):
		if not isinstance(node[1], list):
			return
		for a in reversed(path):
			if a[0] == node[0]:
				yield a, node
				break
		for child in node[1]:
			yield from rec(child, path + [node])

	for child in tree[1]:
		yield from rec(child, [])


def replace(tree, old, new):
	if tree is old:
		return new
	return [tree[0], [replace(a, old, new) for a in tree[1]]
			if isinstance(tree[1], list) else tree[1]]


@st.composite
def treebanks(draw):
	"""Trees with words."""
	def tree(label, depth):
		children = []
		for n in range(2 if depth > 1 else draw(st.integers(1, 2))):
			if depth > 1 and draw(st.integers(0, 1 + 2 * (n == 0))):
				children.append(tree(draw(st.sampled_from('AAB')),
						depth - 1))
			else:
				children.append([draw(st.sampled_from(POS)),
						draw(st.sampled_from(words))])
		return [label, children]

	words = draw(st.sampled_from((WORDS[:2], WORDS, ODD)))
	trees = [['ROOT', [tree(draw(st.sampled_from('SA')), draw(st.integers(2, 6)))]]
			for _ in range(draw(st.integers(1, 3)))]
	return trees + [trees[n % len(trees)]
			for n in draw(st.lists(st.integers(0, 3), min_size=1, max_size=2))]


@prop(treebanks(), 200, rule='has auxiliary tree')
def induced(trees):
	"""The grammar induced from a treebank generates its trees."""
	from discodop import pcfg, disambiguation
	from discodop.containers import Grammar
	dtrees, sents = zip(*(brackettree(todiscbracket(a), detectdisc=True)
			for a in trees))
	rules, lexicon, init, aux = grammar.doubleostagfromtsg(
			list(dtrees), list(sents), numproc=1)
	prods = Counter(todiscbracket([a[0], [[b[0], None] for b in a[1]]
			if isinstance(a[1], list) else a[1]])
			for tree in trees for a in subtrees(tree))
	for a, n in prods.items():
		same(init.get(a), n, 'weight of %s', a)
	for a in list(init) + list(aux):
		check(a in prods or re.search(r' [0-9]+=\w+\)', a),
				'not lexicalized: %s', a)
	for a in aux:
		same(a.count('=*)'), 1, 'foot nodes of %s', a)
		check(re.search(r'\(%s [0-9]+=\*\)' % re.escape(
				a[1:a.index(' ')]), a), 'foot is not like root: %s', a)
	same(grammar.ostagreduction(init, aux), (rules, lexicon), 'reduction')
	tmp = tempfile.mkdtemp(prefix='ostag-', dir='.')
	try:
		for name, data in (('rules', rules), ('lex', lexicon)):
			with open('%s/%s' % (tmp, name), 'w', encoding='utf8') as out:
				out.write(data)
		gram = Grammar(tmp + '/rules', tmp + '/lex', start='ROOT')
	finally:
		shutil.rmtree(tmp)
	for tree, sent in zip(trees, sents):
		if len(sent) > 7:
			continue
		chart, msg = pcfg.parse(sent, gram)
		check(chart, 'no parse for %r: %r', sent, msg)
		disambiguation.getderivations(chart, 500, True)
		if len(chart.derivations) == 500:
			continue
		results, msg = disambiguation.marginalize('mpp', chart, k=500,
				ostag=True, sent=sent)
		check(bracketed(freeze(tree)) in {a for a, _, _ in results},
				'tree %r not derived', tree)
	return ('aux', ) if aux else ()
