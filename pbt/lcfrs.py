"""Reference implementation of (probabilistic) LCFRS parsing, and generators of
binarized grammars with sentences.

Written from the definition of LCFRS: exhaustive deduction over items
``(label, bitmask)``; nothing is shared with the code under test.

A grammar is a dict with plain data::

	{'rules': [(lhs, (rhs, ...), yf, weight), ...],
	 'lex': [(tag, word, weight), ...]}
"""
from collections import Counter
from hypothesis import strategies as st
from core import check
from gens import leavesof, ispre, biased, specs

WORDS = ('a', 'b', 'c')


# --- spans --------------------------------------------------------------------

def maskof(indices):
	result = 0
	for a in indices:
		result |= 1 << a
	return result


def indicesof(mask):
	return [n for n in range(mask.bit_length()) if mask >> n & 1]


def spansof(mask):
	"""List of maximal contiguous (start, end) intervals."""
	result = []
	for n in indicesof(mask):
		if result and result[-1][1] == n:
			result[-1][1] = n + 1
		else:
			result.append([n, n + 1])
	return [tuple(a) for a in result]


def fanoutof(mask):
	return len(spansof(mask))


def combine(yf, left, right):
	"""Instantiate a yield function; returns None when it does not apply."""
	pending = [spansof(left), spansof(right)]
	if left & right:
		return None
	last = -1
	for comp in yf:
		cur = None
		for arg in comp:
			if not pending[arg]:
				return None
			a, b = pending[arg].pop(0)
			if cur is None:
				if a <= last:  # a gap may not be empty
					return None
			elif cur != a:
				return None
			cur = b
		last = cur
	if pending[0] or pending[1]:
		return None
	return left | right


def yieldfunction(left, right):
	"""Inverse of combine."""
	spans = sorted([(a, b, 0) for a, b in spansof(left)]
			+ [(a, b, 1) for a, b in spansof(right)])
	yf, last = [], None
	for a, b, arg in spans:
		if a != last:
			yf.append([])
		yf[-1].append(arg)
		last = b
	return tuple(map(tuple, yf))


# --- grammar --------------------------------------------------------------------

def masses(g):
	result = Counter()
	for lhs, _, _, w in g['rules']:
		result[lhs] += w
	for tag, _, w in g['lex']:
		result[tag] += w
	return result


def useful(g, root='ROOT'):
	"""Drop rules with symbols that are not the LHS of any rule."""
	rules, lex = list(g['rules']), list(g['lex'])
	while True:
		lhss = {a[0] for a in rules} | {a[0] for a in lex}
		new = [a for a in rules if all(b in lhss for b in a[1])]
		if len(new) == len(rules):
			return {'rules': rules, 'lex': lex}
		rules = new


def tuples(g):
	"""Grammar as expected by disco-dop."""
	return ([(((lhs, ) + tuple(rhs), yf), w) for lhs, rhs, yf, w in g['rules']]
			+ [(((tag, 'Epsilon'), (word, )), w) for tag, word, w in g['lex']])


def extract(pairs, fanouts=True):
	"""Grammar of binarized treebank given as (spec, sent) pairs."""
	rules, lex = Counter(), Counter()

	def name(node):
		f = fanoutof(maskof(leavesof(node)))
		return '%s_%d' % (node[0], f) if fanouts and f > 1 else node[0]

	def visit(node, sent):
		if ispre(node):
			lex[node[0], sent[node[1][0]]] += 1
			return
		kids = sorted(node[1], key=lambda a: min(leavesof(a)))
		if len(kids) == 1:
			n = fanoutof(maskof(leavesof(node)))
			yf = ((0, ), ) * n
		else:
			yf = yieldfunction(*[maskof(leavesof(a)) for a in kids])
		rules[name(node), tuple(map(name, kids)), yf] += 1
		for a in kids:
			visit(a, sent)
	for spec, sent in pairs:
		visit(spec, sent)
	return {'rules': [k + (v, ) for k, v in rules.items()],
			'lex': [k + (v, ) for k, v in lex.items()]}


# --- parsing --------------------------------------------------------------------

class Forest:
	"""All items and edges derivable for a sentence.

	:param tags: list of allowed sets of POS tags for each word, or None.
	:param allowed: function (label, mask) => bool; whether the item may be
		used.
	:param mask: set of indices of phrasal rules that may be used.
	:param probs: (rule probs, lexical probs) when not relative frequencies.

	self.edges[item] is a list of ``(prob, left, right)``,
	``(prob, left)``, or ``(prob, )`` for lexical edges."""
	def __init__(self, g, sent, tags=None, root='ROOT', allowed=None,
			mask=None, probs=None, lexitems=None):
		mass = masses(g)
		self.sent = sent
		self.edges = {}
		self.ruleno = {}
		self.root = (root, (1 << len(sent)) - 1)
		self.recognized = True
		if probs is None:
			probs = ([w / mass[lhs] for lhs, _, _, w in g['rules']],
					[w / mass[tag] for tag, _, w in g['lex']])
		unary, byleft, byright = {}, {}, {}
		for n, (lhs, rhs, yf, w) in enumerate(g['rules']):
			if mask is not None and n not in mask:
				continue
			p = probs[0][n]
			if len(rhs) == 1:
				unary.setdefault(rhs[0], []).append((lhs, p, n))
			else:
				byleft.setdefault(rhs[0], []).append((lhs, rhs[1], yf, p, n))
				byright.setdefault(rhs[1], []).append((lhs, rhs[0], yf, p, n))
		agenda = []
		bylabel = {}

		def add(item, edge, n=None):
			if allowed is not None and len(edge) > 1 and not allowed(*item):
				return
			if item not in self.edges:
				self.edges[item] = []
				agenda.append(item)
			self.edges[item].append(edge)
			self.ruleno.setdefault(item, []).append(n)

		for i, word in enumerate(sent):
			found = False
			cands = [(tag, probs[1][n]) for n, (tag, w, _)
					in enumerate(g['lex']) if w == word]
			if not cands:
				cands = [(tag, probs[1][n]) for n, (tag, w, _)
						in enumerate(g['lex']) if w == word.lower()]
			if lexitems is not None:
				cands = lexitems[i]
			for tag, p in cands:
				if tags is not None and tags[i] is not None \
						and tag not in tags[i]:
					continue
				if allowed is not None and not allowed(tag, 1 << i):
					continue
				add((tag, 1 << i), (p, ))
				found = True
			if not found:
				self.recognized = False
		while agenda:
			item = agenda.pop(0)
			label, vec = item
			for lhs, p, n in unary.get(label, ()):
				add((lhs, vec), (p, item), n)
			done = bylabel.setdefault(label, [])
			done.append(vec)
			for lhs, sib, yf, p, n in byleft.get(label, ()):
				for other in bylabel.get(sib, ()):
					new = combine(yf, vec, other)
					if new is not None:
						add((lhs, new), (p, item, (sib, other)), n)
			for lhs, sib, yf, p, n in byright.get(label, ()):
				for other in bylabel.get(sib, ()):
					if (sib, other) == item:
						continue
					new = combine(yf, other, vec)
					if new is not None:
						add((lhs, new), (p, (sib, other), item), n)
		if not self.recognized:
			self.edges = {}

	def parsed(self):
		return self.root in self.edges

	def reachable(self):
		"""Items that are part of a complete derivation."""
		result, todo = set(), [self.root] if self.parsed() else []
		while todo:
			item = todo.pop()
			if item not in result:
				result.add(item)
				for edge in self.edges[item]:
					todo.extend(edge[1:])
		return result

	def viterbi(self):
		best = {item: 0.0 for item in self.edges}
		change = True
		while change:
			change = False
			for item, edges in self.edges.items():
				for edge in edges:
					p = edge[0]
					for a in edge[1:]:
						p *= best[a]
					if p > best[item] * (1 + 1e-12):
						best[item] = p
						change = True
		return best

	def order(self):
		"""Items in bottom-up order, or None when there are cycles."""
		result, state = [], {}
		for start in self.edges:
			stack = [(start, None)]
			while stack:
				item, it = stack.pop()
				if it is None:
					if state.get(item) == 2:
						continue
					state[item] = 1
					it = iter([a for e in self.edges[item] for a in e[1:]])
				for a in it:
					if state.get(a) == 1:
						return None
					if a not in state:
						stack.append((item, it))
						stack.append((a, None))
						break
				else:
					state[item] = 2
					result.append(item)
		return result

	def inside(self, counts=False):
		"""Inside probabilities or number of derivations (acyclic only)."""
		result = {}
		for item in self.order():
			total = 0
			for edge in self.edges[item]:
				p = 1 if counts else edge[0]
				for a in edge[1:]:
					p *= result[a]
				total += p
			result[item] = total
		return result

	def outside(self, inside):
		result = {item: 0.0 for item in self.edges}
		result[self.root] = 1.0
		for item in reversed(self.order()):
			for edge in self.edges[item]:
				for n, a in enumerate(edge[1:], 1):
					p = edge[0] * result[item]
					for m, b in enumerate(edge[1:], 1):
						if m != n:
							p *= inside[b]
					result[a] += p
		return result

	def derivations(self, item=None):
		"""Enumerate (probability, derivation string); acyclic only."""
		memo = {}

		def visit(item):
			if item not in memo:
				result = []
				label = item[0]
				for edge in self.edges[item]:
					if len(edge) == 1:
						result.append((edge[0], '(%s %d)' % (label,
								item[1].bit_length() - 1), (item, )))
					elif len(edge) == 2:
						for p, s, its in visit(edge[1]):
							result.append((p * edge[0], '(%s %s)' % (label, s),
									(item, ) + its))
					else:
						for p, s, its in visit(edge[1]):
							for p1, s1, its1 in visit(edge[2]):
								result.append((p * p1 * edge[0],
										'(%s %s %s)' % (label, s, s1),
										(item, ) + its + its1))
				memo[item] = result
			return memo[item]
		return visit(self.root if item is None else item)


# --- reading charts -------------------------------------------------------------

def readitem(s, n):
	"""'NP[0:2]' or 'NP[0110]' => (label, mask)."""
	label, rest = s[:-1].rsplit('[', 1)
	if ':' in rest:
		a, b = map(int, rest.split(':'))
		return label, (1 << b) - (1 << a)
	return label, maskof([i for i, a in enumerate(rest) if a == '1'])


def readchart(chart, n):
	"""Parse str(chart); returns {item: (vitprob, sorted list of edges)}."""
	result = {}
	for line in str(chart).splitlines():
		if line.startswith('ranked edges:') or not line.strip():
			break
		if line.startswith('\t=> '):
			parts = line[4:].split()
			p = float(parts.pop())
			if parts[0].startswith("'"):
				edges.append((p, ))
			else:
				edges.append((p, ) + tuple(readitem(a, n) for a in parts))
		else:
			parts = line.split()
			item = readitem(parts[0], n)
			edges = []
			result[item] = (float(parts[1].split('=')[1]), edges)
	return result


# --- helpers ---

def close(a, b, tol=1e-5):
	return abs(a - b) <= tol * max(abs(a), abs(b))


def prepare(g, **kwds):
	from discodop.containers import Grammar
	return Grammar(tuples(g), start='ROOT', **kwds)


def probof(tree, ref):
	"""Probability of a derivation according to the reference forest."""
	item = (tree.label, maskof(tree.leaves()))
	check(item in ref.edges, 'item %r not in forest', item)
	if not hasattr(tree[0], 'label'):
		kids = ()
	else:
		kids = tuple((a.label, maskof(a.leaves())) for a in tree)
	for edge in ref.edges[item]:
		if edge[1:] == kids:
			p = edge[0]
			for a in tree:
				if hasattr(a, 'label'):
					p *= probof(a, ref)
			return p
	check(False, 'no such edge: %r => %r', item, kids)


# --- generators -----------------------------------------------------------------

def binspecs(**kwds):
	return specs(maxarity=2, root='ROOT', pos=('X', 'Y'), **kwds)


@st.composite
def grammars(draw, maxtrees=3, maxleaves=6, disc=True, unary=True, extra=4,
		phrasal=('A', 'B', 'C'), words=WORDS, acyclic=False, weights=True):
	"""Grammars with sentences: the union of the rules of a few trees and of
	some random rules; sentences are those of trees, or random words."""
	pairs = []
	for _ in range(draw(st.integers(1, maxtrees))):
		spec = draw(binspecs(minleaves=2, maxleaves=maxleaves, disc=disc,
				phrasal=phrasal, unary=unary))
		pairs.append((spec,
				[draw(st.sampled_from(words)) for _ in leavesof(spec)]))
	g = extract(pairs)
	seen = {(a, b, c) for a, b, c, _ in g['rules']}
	lhss = sorted({a for a, _, _, _ in g['rules']} - {'ROOT'})
	tags = sorted({a for a, _, _ in g['lex']})
	for _ in range(draw(st.integers(0, extra))):
		if not lhss:
			break
		syms = lhss + tags

		def fan(a):
			return int(a.rsplit('_', 1)[1]) if '_' in a else 1
		if unary and biased(draw, 3, 1):
			lhs = draw(st.sampled_from(lhss + ['ROOT']))
			rhs = draw(st.sampled_from([a for a in syms
					if fan(a) == fan(lhs)] or [None]))
			if rhs is None:
				continue
			new = lhs, (rhs, ), ((0, ), ) * fan(lhs)
		else:
			r1, r2 = draw(st.sampled_from(syms)), draw(st.sampled_from(syms))
			args = [0] * fan(r1) + [1] * fan(r2)
			if disc:
				args = draw(st.permutations(args))
			yf = [[args[0]]]
			for a, b in zip(args, args[1:]):
				if a == b or (disc and biased(draw, 4, 1)):
					yf.append([])
				yf[-1].append(b)
			f = len(yf)
			lhs = draw(st.sampled_from([a for a in lhss + ['ROOT']
					if fan(a) == f] or [None]))
			if lhs is None:
				continue
			new = lhs, (r1, r2), tuple(map(tuple, yf))
		if new not in seen:
			seen.add(new)
			g['rules'].append(new + (draw(st.integers(1, 5)), ))
	if biased(draw, 2, 1):  # more ambiguous words
		for tag in tags:
			for word in words[:2]:
				if not any((tag, word) == a[:2] for a in g['lex']):
					g['lex'].append((tag, word, draw(st.integers(1, 3))))
	if acyclic:
		g['rules'] = dropcycles(g['rules'])
		g = useful(g)
	if weights:
		g['rules'] = [a[:3] + (draw(st.integers(1, 9)), ) for a in g['rules']]
	sents = [draw(st.sampled_from([b for _, b in pairs]))]
	if biased(draw, 2, 1):
		sents.append([draw(st.sampled_from(words[:2]))
				for _ in range(draw(st.integers(1, maxleaves)))])
	return {'rules': g['rules'], 'lex': g['lex']}, sents


@st.composite
def densegrammars(draw, disc):
	"""Grammars with many more rules than labels."""
	def fan(label):
		return int(label.partition('_')[2] or 1)

	phrasal = ['ROOT', 'A', 'A_2'] if disc else draw(st.sampled_from(
			(['ROOT', 'A'], ['ROOT', 'A', 'B'], ['ROOT', 'A', 'B', 'C'])))
	tags = ['x', 'y', 'z'][:draw(st.integers(1, 3))]
	yfs = {(1, 1, 1): [((0, 1), )], (2, 1, 1): [((0, ), (1, ))],
			(1, 1, 2): [((1, 0, 1), )], (1, 2, 1): [((0, 1, 0), )],
			(2, 2, 1): [((0, 1), (0, )), ((0, ), (1, 0)), ((0, ), (0, 1))],
			(1, 2, 2): [((0, 1, 0, 1), ), ((0, 1, 1, 0), )]}
	rules = {}
	weights = st.sampled_from((1, 50, 3, 400, 7, 20))
	for lhs in phrasal:
		for a in phrasal[1:] + tags:
			for b in phrasal[1:] + tags:
				for yf in yfs.get((fan(lhs), fan(a),
						fan(b)), ()):
					if draw(st.sampled_from((True, True, True, False))):
						rules[lhs, (a, b), yf] = draw(weights)
	for lhs in phrasal[:-1] if disc else phrasal:
		rules.setdefault((lhs, (tags[0], tags[-1]), ((0, 1), )), 1)
		if draw(st.booleans()):
			rules[lhs, (draw(st.sampled_from(tags)), ), ((0, ), )] = draw(
					weights)
	if disc:
		rules.setdefault(('A_2', (tags[0], tags[0]), ((0, ), (1, ))), 1)
	lex = [(tag, word, draw(weights)) for tag in tags for word in 'ab'
			if word == 'a' or draw(st.booleans())]
	g = {'rules': [k + (w, ) for k, w in sorted(rules.items())], 'lex': lex}
	words = sorted({a for _, a, _ in lex})
	sents = [[draw(st.sampled_from(words))
			for _ in range(draw(st.integers(2, 5 - disc)))]]
	return g, sents


def dropcycles(rules):
	"""Drop unary rules that lead to cycles."""
	result, up = [], {}

	def reaches(a, b):
		return a == b or any(reaches(c, b) for c in up.get(a, ()))
	for rule in rules:
		if len(rule[1]) == 1:
			if reaches(rule[1][0], rule[0]):
				continue
			up.setdefault(rule[0], []).append(rule[1][0])
		result.append(rule)
	return result


def iscfg(g):
	return all(a[2] in (((0, ), ), ((0, 1), )) for a in g['rules'])
