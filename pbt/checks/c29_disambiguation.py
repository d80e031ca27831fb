"""C29: disambiguation objectives are those of the DOP model."""
import re
from collections import Counter
from math import log, exp
from hypothesis import strategies as st
import lcfrs
import fragref
from core import prop, check, same
from gens import leavesof, ispre, biased
from lcfrs import close

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest', '_fragments',
		'disambiguation')
WORDS = ('a', 'b', 'c')
ODD = ('a', 'B', '(', ')', '-LRB-', 'x@y', '{0}', '\u00e9', '3=4', '%', '}<1>')
PAD = 60  # words; such that the sentence does not fit in a machine word
METHODS = ('mpp', 'mpd', 'shortest', 'sl-dop', 'sl-dop-simple')
MAXDERIVS = 3000
ADDRESS = re.compile(r'@[-0-9]+\b')


# --- reference model ------------------------------------------------------------

def marked(spec):
	n = lcfrs.fanoutof(lcfrs.maskof(leavesof(spec)))
	return [spec[0] + ('_%d' % n if n > 1 else ''), list(spec[1])
			if ispre(spec) else sorted((marked(a) for a in spec[1]),
				key=lambda a: min(leavesof(a)))]


def treestr(spec):
	return '(%s %s)' % (spec[0], ' '.join(str(a) if isinstance(a, int)
			else treestr(a) for a in spec[1]))


def readspec(s):
	"""Read tree with indices as leaves."""
	stack = [[]]
	for tok in re.findall(r'\(\S+|\)|[0-9]+', s):
		if tok[0] == '(':
			stack.append([tok[1:], []])
		elif tok == ')':
			node = stack.pop()
			(stack[-1][1] if len(stack) > 1 else stack[0]).append(node)
		else:
			stack[-1][1].append(int(tok))
	check(len(stack) == 1 and len(stack[0]) == 1, 'not a tree: %r', s)
	return stack[0][0]


def escape(word):
	return word.replace('(', '#LRB#').replace(')', '#RRB#')


class Model:
	"""Tree-substitution grammar.

	freq: frequencies of fragments; weight: weights of fragments;
	root: label of the root of each fragment."""
	def __init__(self, pairs, kind, model, maxdepth):
		self.maxdepth = maxdepth if kind == 'dop1' else 999
		self.tables = [fragref.Table(a, b, escape) for a, b in pairs]
		self.freq, self.where, self.nonterms, self.root = (
				Counter(), {}, {}, {})
		ntfd = Counter(a for t in self.tables for a in t.label)
		self.size = {}
		if kind == 'doubledop':
			frags = self.recurring(maxdepth)
		else:
			frags = [(n, root, nodes) for n, t in enumerate(self.tables)
					for root, nodes in fragref.allfragments(
						t, self.maxdepth, 999)]
		for n, root, nodes in frags:
			t = self.tables[n]
			f = t.string(nodes, root)
			self.freq[f] += 1
			self.where.setdefault(f, []).append(n)
			self.root[f] = t.label[root]
			self.size[f] = len(nodes)
			self.nonterms[f] = f.count('(') - 1
		mass = Counter()
		for f, x in self.freq.items():
			mass[self.root[f]] += x
		self.mass = mass
		if model == 'default':
			self.unit = {f: 1 / mass[self.root[f]] for f in self.freq}
		elif model == 'bon':
			self.unit = {f: 2 ** -self.nonterms[f] / ntfd[self.root[f]]
					for f in self.freq}
		elif kind == 'reduction':
			self.unit = {f: 1 / (mass[self.root[f]] * ntfd[self.root[f]])
					for f in self.freq}
		else:
			pertree = Counter(n for a in self.where.values() for n in a)
			ewe = {f: sum(1 / pertree[n] for n in a)
					for f, a in self.where.items()}
			total = Counter()
			for f, x in ewe.items():
				total[self.root[f]] += x
			self.unit = {f: ewe[f] / total[self.root[f]] / self.freq[f]
					for f in ewe}
		self.weight = {f: self.freq[f] * self.unit[f] for f in self.freq}
		# weight of fragment with a particular address
		self.weight1 = {f: x if self.size[f] == 1 or kind != 'reduction'
				else self.unit[f] for f, x in self.weight.items()}
		self.addresses = {f: 1 if self.size[f] == 1 or kind != 'reduction'
				else x for f, x in self.freq.items()}

	def recurring(self, maxdepth):
		"""Occurrences of recurring fragments and productions."""
		frags = {}
		for n, a in enumerate(self.tables):
			for b in self.tables[n + 1:]:
				for root, nodes in fragref.common(a, b):
					frags[a.string(nodes, root)] = n, root, nodes
			for root, nodes in fragref.allfragments(a, max(1, maxdepth), 999):
				frags[a.string(nodes, root)] = n, root, nodes
		result = []
		for n, root, nodes in frags.values():
			a = self.tables[n]
			for m, j in fragref.occurrences(a, root, nodes, self.tables):
				# corresponding nodes
				todo, nodes1 = [(root, j)], set()
				while todo:
					x, y = todo.pop()
					nodes1.add(y)
					todo.extend((p, q) for p, q in zip(a.kids[x],
							self.tables[m].kids[y]) if p in nodes)
				result.append((m, j, frozenset(nodes1)))
		return result

	def derivations(self, spec, sent):
		"""List of tuples of fragments."""
		t = fragref.Table(spec, sent, escape)
		byroot = {}
		for root, nodes in fragref.allfragments(t, self.maxdepth, 999):
			f = t.string(nodes, root)
			if f in self.freq:
				front = [b for a in sorted(nodes) for b in t.kids[a]
						if b not in nodes]
				byroot.setdefault(root, []).append((f, front))
		memo = {}

		def visit(n):
			if n not in memo:
				result = []
				for f, front in byroot.get(n, ()):
					derivs = [(f, )]
					for a in front:
						derivs = [b + c for b in derivs for c in visit(a)]
						if len(derivs) > MAXDERIVS:
							raise OverflowError
					result.extend(derivs)
				memo[n] = result
			return memo[n]
		return visit(0)

	def prob(self, deriv, weight):
		result = 1
		for f in deriv:
			result *= weight[f]
		return result


def shifted(spec, n):
	return spec + n if isinstance(spec, int) else [spec[0], [
			shifted(a, n) for a in spec[1]]]


def padded(spec, n):
	if n == PAD:
		return ['R', shifted(spec, PAD)[1]]
	return ['Q%d' % n if n else 'ROOT', [['T%d' % n, [n]],
			padded(spec, n + 1)]]


@st.composite
def cases(draw):
	pairs = []
	if biased(draw, 5, 1):  # a small set of rules, more ambiguity
		kwds = dict(phrasal=('A', 'B'), disc=draw(st.booleans()))
		nwords = 2
	else:
		kwds = dict(phrasal=('A', 'B', 'C'))
		nwords = 3
	words = WORDS[:nwords]
	if biased(draw, 4, 1):
		words = draw(st.permutations(ODD))[:nwords]
	for _ in range(draw(st.integers(1, 4))):
		spec = marked(draw(lcfrs.binspecs(minleaves=2, maxleaves=5, **kwds)))
		pairs.append((spec, [draw(st.sampled_from(words))
				for _ in leavesof(spec)]))
		if biased(draw, 3, 1):
			pairs.append((spec, [draw(st.sampled_from(words))
					for _ in leavesof(spec)]))
	sents = [list(draw(st.sampled_from([b for _, b in pairs])))]
	if draw(st.booleans()):
		sents.append([draw(st.sampled_from(words))
				for _ in range(draw(st.integers(1, 5)))])
	method = draw(st.sampled_from(METHODS))
	kind = draw(st.sampled_from(('reduction', 'doubledop', 'dop1')))
	maxdepth = draw(st.integers(1, 4))
	if biased(draw, 7, 1):
		kind, maxdepth = 'dop1', 1  # otherwise too many fragments
		pad = ['p%d' % n for n in range(PAD)]
		pairs = [(padded(a, 0), pad + b) for a, b in pairs]
		sents = [pad + a for a in sents]
	upper = words == WORDS[:nwords] and biased(draw, 5, 1)
	if upper:  # unknown words, fall back to lower case
		sents = [[b.upper() if draw(st.booleans()) else b for b in a]
				for a in sents]
	return {'pairs': pairs, 'sents': sents, 'upper': upper,
			'kind': kind, 'method': method, 'maxdepth': maxdepth,
			'model': draw(st.sampled_from(
				('default', 'default', 'ewe', 'bon'))),
			'n': draw(st.integers(1, 8)),
			'tags': biased(draw, 4, 1),
			'constr': draw(st.one_of(st.none(), st.tuples(
				st.booleans(), st.integers(0, 20), st.integers(0, 20))))}


def induce(case):
	from discodop.tree import Tree
	from discodop.containers import Grammar
	from discodop import grammar
	trees = [Tree(treestr(a)) for a, _ in case['pairs']]
	sents = [list(b) for _, b in case['pairs']]
	if case['kind'] == 'reduction':
		xgrammar, altweights = grammar.dopreduction(trees, sents)
		result = Grammar(xgrammar, altweights=altweights, start='ROOT')
		result.getmapping(None, striplabelre=ADDRESS)
		result.getrulemapping(result, ADDRESS)
		return result
	elif case['kind'] == 'doubledop':
		xgrammar, backtransform, altweights, _ = grammar.doubledop(
				trees, sents, numproc=1, maxdepth=case['maxdepth'])
	else:
		xgrammar, backtransform, altweights, _ = grammar.dop1(
				trees, sents, maxdepth=case['maxdepth'])
	result = Grammar(xgrammar, altweights=altweights, start='ROOT',
			backtransform=backtransform)
	result.getmapping(None, neverblockre=re.compile('^[^@]+}<'))
	return result


def reference(case, model, sent, tags=None):
	"""Dictionary of parse trees and derivations, or None if too many."""
	forest = Forest = lcfrs.Forest(lcfrs.extract(case['pairs'], False), sent,
			tags=tags)
	if not forest.parsed():
		return {}
	if forest.order() is None or forest.inside(counts=True)[forest.root] > 60:
		return None
	result = {}
	total = 0
	try:
		for _, s, _ in forest.derivations():
			result[s] = model.derivations(readspec(s), sent)
			total += sum(model.prob(a, model.addresses) for a in result[s])
			if total > MAXDERIVS:
				return None
	except OverflowError:
		return None
	return result


def lower(case, sent):
	return [a.lower() for a in sent] if case['upper'] else sent


def spans(spec):
	yield spec[0], leavesof(spec)
	if not ispre(spec):
		for a in spec[1]:
			yield from spans(a)


def constraints(case, ref):
	"""Pick a labeled span; returns (require, block, set of trees)"""
	if case['constr'] is None:
		return {}, set(ref)
	block, m, n = case['constr']
	trees = sorted(ref)
	cands = sorted((a, sorted(b)) for a, b in
			spans(readspec(trees[m % len(trees)])))
	label, indices = cands[n % len(cands)]
	sel = {a for a in ref if any((b, sorted(c)) == (label, indices)
			for b, c in spans(readspec(a)))}
	if block:
		return {'block': [(label, indices)]}, set(ref) - sel
	return {'require': [(label, indices)]}, sel


def fragments(frags):
	return tuple(sorted(a for a, _ in frags))


@prop(cases(), 700, rule='there is a parse')
def objectives(case):
	"""Parse trees and scores are those of the tree-substitution grammar."""
	from discodop import plcfrs, pcfg, disambiguation
	grammar = induce(case)
	model = Model(case['pairs'], case['kind'], case['model'],
			case['maxdepth'])
	method, n = case['method'], case['n']
	result = set()
	for sent1 in case['sents']:
		sent = lower(case, sent1)
		tags = None
		if case['tags']:
			tags = []
			for m, word in enumerate(sent):
				cands = sorted({t.label[i] for t in model.tables
						for i in range(len(t)) if t.word[i] == escape(word)})
				if not cands:
					break
				tags.append(cands[(m + n) % len(cands)])
			if len(tags) < len(sent):
				continue
			result.add('tags')
		ref = reference(case, model, sent, None if tags is None
				else [{a} for a in tags])
		if ref is None:
			continue
		grammar.switch('shortest' if method == 'shortest' else case['model'],
				True)
		chart, msg = plcfrs.parse(sent1, grammar, tags=tags)
		same(bool(chart), bool(ref), 'whether there is a parse')
		if not ref:
			continue
		numderivs = sum(model.prob(b, model.addresses)
				for a in ref.values() for b in a)
		disambiguation.getderivations(chart, numderivs + 10, True)
		if case['kind'] == 'reduction':
			same(len(chart.derivations), numderivs, 'number of derivations')
		kwds, keep = constraints(case, ref)
		grammar.switch(case['model'], True)
		results, msg = disambiguation.marginalize(method, chart, sent=sent1,
				tags=tags, k=numderivs + 10, sldop_n=n, **kwds)
		same(grammar.currentmodel, case['model'], 'current model')
		if case['upper']:
			results = [(a, b, [(re.sub('=.', lambda x: x.group().lower(), d),
					e) for d, e in c]) for a, b, c in results]
		judge(case, model, ref, sent, results, keep)
		result.add('%s %s' % (case['kind'], method))
		result.update(kwds)
		if sent != sent1:
			result.add('upper')
		if len(sent) > PAD:
			result.add('long')
		if len(ref) > 1:
			result.add('ambiguous')
	return sorted(result)


def judge(case, model, ref, sent, results, keep):
	method, n, kind = case['method'], case['n'], case['kind']
	for tree, _, _ in results:
		check(tree in ref, 'not a parse tree: %r', tree)
		check(tree in keep, 'parse tree not ruled out: %r', tree)
	probs = {a: sum(model.prob(d, model.weight) for d in b)
			for a, b in ref.items()}
	trees = [a for a, _, _ in results]
	if method in ('mpp', 'sl-dop', 'sl-dop-simple') or (
			kind != 'reduction'):
		same(len(trees), len(set(trees)), 'number of distinct trees')
	short = {a: min(map(len, b)) for a, b in ref.items()}
	if method == 'mpp':
		same(set(trees), keep, 'set of parse trees')
		for tree, prob, frags in results:
			check(close(prob, probs[tree]), 'probability of %s: %g, '
					'expected %g', tree, prob, probs[tree])
			best = max(model.prob(d, model.weight1) for d in ref[tree])
			isderiv(model, ref[tree], frags, lambda d: close(
					model.prob(d, model.weight1), best))
	elif method == 'mpd':
		same(set(trees), keep, 'set of parse trees')
		for tree, prob, frags in results:
			isderiv(model, ref[tree], frags, lambda d: close(
					model.prob(d, model.weight1), prob))
			if kind != 'reduction':
				best = max(model.prob(d, model.weight) for d in ref[tree])
				check(close(prob, best), 'best derivation: %g; got %g',
						best, prob)
		if kind == 'reduction':
			same(Counter((a, fragments(c)) for a, _, c in results),
					Counter((a, tuple(sorted(d))) for a in keep
					for d in ref[a]), 'derivations')
	elif method == 'shortest':
		least = min(short.values())
		expected = {a for a in keep if short[a] == least}
		same(set(trees), expected, 'trees with shortest derivations')
		for tree, (length, prob), frags in results:
			same(length, least, 'length of shortest derivation')
			isderiv(model, ref[tree], frags, lambda d: len(d) == least
					and close(model.prob(d, model.weight), prob))
			if kind != 'reduction':
				best = max(model.prob(d, model.weight) for d in ref[tree]
						if len(d) == least)
				check(close(prob, best), 'best shortest derivation: %g; '
						'got %g', best, prob)
		if kind == 'reduction':
			same(Counter((a, fragments(c)) for a, _, c in results),
					Counter((a, tuple(sorted(d))) for a in expected
					for d in ref[a] if len(d) == least), 'derivations')
	else:
		ranked = sorted((probs[a] for a in keep), reverse=True)
		same(len(trees), min(n, len(keep)), 'number of trees')
		cutoff = ranked[min(n, len(ranked)) - 1] if ranked else 0
		for tree, (length, prob), frags in results:
			check(close(prob, probs[tree]), 'probability of %s: %g, '
					'expected %g', tree, prob, probs[tree])
			check(prob >= cutoff * (1 - 1e-6), 'not among %d most probable '
					'trees: %s', n, tree)
			same(length, -short[tree], 'length of shortest derivation')
			isderiv(model, ref[tree], frags,
					lambda d: len(d) == short[tree])


def isderiv(model, derivs, frags, cond):
	got = fragments(frags)
	for a in got:
		check(a in model.freq, 'not a fragment of this model: %s', a)
	check(any(tuple(sorted(d)) == got and cond(d) for d in derivs),
			'fragments %r are not such a derivation', got)
	for a, b in frags:
		if b:
			x, y, w = map(float, re.match('rel. freq: (.*)/(.*); weight: (.*)',
					b).groups())
			same((x, y), (float(model.freq[a]),
					float(model.mass[model.root[a]])), 'frequencies of ' + a)
			check(close(w, model.weight[a]), 'weight of %s: %g; expected %g',
					a, w, model.weight[a])


def kbest(case, model, grammar, sent, parser=None):
	"""Parse and extract all derivations."""
	from discodop import plcfrs, disambiguation
	sent1 = lower(case, sent)
	ref = reference(case, model, sent1)
	if not ref:
		return None, None, 0
	chart, msg = (parser or plcfrs).parse(sent, grammar)
	check(chart, 'no parse: %s', msg)
	numderivs = sum(model.prob(b, model.addresses)
			for a in ref.values() for b in a)
	return ref, chart, numderivs


def modelof(case):
	return Model(case['pairs'], case['kind'], case['model'],
			case['maxdepth'])


@prop(st.tuples(cases(), st.integers(1, 30)), 300,
		rule='there are more derivations than requested')
def fewderivations(arg):
	"""Scores with the k best derivations are lower bounds."""
	from discodop import disambiguation
	case, k = arg
	if case['method'].startswith('sl-dop'):
		case['method'] = 'mpp'
	grammar, model = induce(case), modelof(case)
	result = set()
	for sent in case['sents']:
		method = case['method']
		grammar.switch('shortest' if method == 'shortest' else case['model'],
				True)
		ref, chart, numderivs = kbest(case, model, grammar, sent)
		if ref is None:
			continue
		disambiguation.getderivations(chart, k, case['kind'] == 'reduction')
		grammar.switch(case['model'], True)
		results, _ = disambiguation.marginalize(method, chart, sent=sent, k=k)
		check(results and len(results) <= k, '%d results', len(results))
		for tree, prob, frags in results:
			check(tree in ref, 'not a parse tree: %s', tree)
			if method == 'mpp':
				total = sum(model.prob(b, model.weight) for b in ref[tree])
				check(prob <= total * (1 + 1e-6), 'probability too high')
			elif method == 'mpd':
				best = max(model.prob(b, model.weight1) for b in ref[tree])
				check(prob <= best * (1 + 1e-6), 'probability too high')
			else:
				same(prob[0], min(len(b) for a in ref.values() for b in a),
						'length of shortest derivation')
				best = max(model.prob(b, model.weight) for b in ref[tree]
						if len(b) == prob[0])
				check(prob[1] <= best * (1 + 1e-6), 'probability too high')
		if method == 'mpd':
			best = max(model.prob(b, model.weight1)
					for a in ref.values() for b in a)
			check(close(max(a for _, a, _ in results), best),
					'most probable derivation')
		elif method == 'mpp':
			# the k best derivations
			derivs = sorted((model.prob(b, model.weight1)
					for a in ref.values() for b in a
					for _ in range(int(model.prob(b, model.addresses)))),
					reverse=True)[:k]
			check(close(sum(derivs), sum(a for _, a, _ in results)),
					'total probability of %d-best derivations', k)
		if k < numderivs:
			result.add('%s %s' % (case['kind'], method))
	return sorted(result)


@prop(cases(), 300, rule='more than one parse tree')
def reranking(case):
	"""dopparseprob gives the exact probability with a DOP reduction."""
	from discodop import disambiguation
	from discodop.tree import Tree
	from discodop.treetransforms import addbitsets
	from discodop.grammar import treebankgrammar
	from discodop.containers import Grammar
	if len(case['sents'][0]) > PAD:
		return ()
	case['kind'] = 'reduction'
	fine, model = induce(case), modelof(case)
	coarse = Grammar(treebankgrammar([Tree(treestr(a))
			for a, _ in case['pairs']], [b for _, b in case['pairs']]),
			start='ROOT')
	fine.getrulemapping(coarse, re.compile(r'@[-0-9]+\b'))
	fine.switch(case['model'], True)
	result = []
	for sent in case['sents']:
		ref = reference(case, model, lower(case, sent))
		if not ref:
			continue
		probs = {a: sum(model.prob(d, model.weight) for d in b)
				for a, b in ref.items()}
		for tree, prob in probs.items():
			got = exp(disambiguation.dopparseprob(
					addbitsets(tree), sent, coarse, fine))
			check(close(got, prob), 'probability of %s: %g; expected %g',
					tree, got, prob)
		k = case['n']
		given = [(a, (7 * n % 11 + 1) / 20, None)
				for n, a in enumerate(sorted(probs))]
		results, _ = disambiguation.doprerank(given, sent, k, coarse, fine)
		same(len(results), min(k, len(given)), 'number of results')
		cutoff = sorted((b for _, b, _ in given), reverse=True)[
				len(results) - 1]
		same(len({a for a, _, _ in results}), len(results), 'distinct trees')
		for tree, prob, _ in results:
			check(close(prob, probs[tree]), 'probability of %s: %g; '
					'expected %g', tree, prob, probs[tree])
			check(dict(a[:2] for a in given)[tree] >= cutoff,
					'not among top %d', k)
		if len(ref) > 1:
			result.append('reranked')
		if sent != lower(case, sent):
			result.append('upper')
	return sorted(set(result))


@prop(cases(), 300, rule='some but not all parse trees are selected')
def treeparsing(case):
	"""The probabilities of selected parse trees."""
	from discodop import disambiguation, plcfrs
	grammar, model = induce(case), modelof(case)
	grammar.switch(case['model'], True)
	result = set()
	for sent in case['sents']:
		ref = reference(case, model, lower(case, sent))
		if not ref:
			continue
		trees = sorted(ref)
		trees = trees[:1 + case['n'] % len(trees)]
		mask = case['kind'] == 'reduction' and case['n'] % 2 == 0
		numderivs = sum(model.prob(b, model.addresses)
				for a in ref.values() for b in a)
		if case['constr'] is not None:  # a tree which is not in the grammar
			got, msg, chart = disambiguation.treeparsing(
					trees + [trees[0].replace('(ROOT ', '(ROOT (NOSUCH ') + ')'],
					sent, grammar, 1, grammar.backtransform, maskrules=mask)
			same((got, chart), ([], None), 'tree with unknown label')
		derivs, msg, chart = disambiguation.treeparsing(trees, sent, grammar,
				numderivs + 10, grammar.backtransform, maskrules=mask)
		check(chart, 'no parse: %s', msg)
		full, _ = plcfrs.parse(sent, grammar)
		disambiguation.getderivations(full, numderivs + 10, True)
		same({a for a, _, _ in disambiguation.marginalize('mpp', full)[0]},
				set(ref), 'parse trees after treeparsing()')
		disambiguation.getderivations(chart, numderivs + 10, True)
		same(derivs, chart.derivations, 'derivations')
		got = {a: b for a, b, _ in disambiguation.marginalize(
				'mpp', chart, sent=sent)[0]}
		for tree in trees:
			check(tree in got, 'no derivation of tree %s', tree)
			prob = sum(model.prob(d, model.weight) for d in ref[tree])
			check(close(got[tree], prob), 'probability of %s: %g; '
					'expected %g', tree, got[tree], prob)
		if case['kind'] == 'reduction':
			allowed = {(a, lcfrs.maskof(b)) for t in trees
					for a, b in spans(readspec(t))}
			rules = {a for t in trees for a in productions(readspec(t))}
			expected = {t for t in ref if allowed >= {
						(a, lcfrs.maskof(b)) for a, b in spans(readspec(t))}
					and (not mask or rules >= set(productions(readspec(t))))}
			same(set(got), expected, 'trees with given labeled spans')
		else:
			check(set(got) <= set(ref), 'not a parse tree')
		if len(trees) < len(ref):
			result.add(case['kind'] + (' mask' if mask else ''))
	return sorted(result)


def productions(spec):
	if not ispre(spec):
		masks = [lcfrs.maskof(leavesof(a)) for a in spec[1]]
		yield (spec[0], tuple(a[0] for a in spec[1]), lcfrs.yieldfunction(
				*masks) if len(masks) > 1
				else len(lcfrs.spansof(masks[0])))
		for a in spec[1]:
			yield from productions(a)


def constituents(spec):
	"""List of (label, mask) with unary chains collapsed."""
	label = spec[0]
	while not ispre(spec) and len(spec[1]) == 1:
		spec = spec[1][0]
		label += '+' + spec[0]
	result = [(label, lcfrs.maskof(leavesof(spec)))]
	if not ispre(spec):
		for a in spec[1]:
			result.extend(constituents(a))
	return result


@prop(st.tuples(cases(), st.sampled_from((1, 1, 0, 0.25, 2, 5))), 400,
		rule='more than one parse tree')
def mcp(arg):
	"""The most constituents correct parse maximizes its objective."""
	from discodop import disambiguation
	case, labda = arg
	if len(case['sents'][0]) > PAD:
		return ()
	grammar, model = induce(case), modelof(case)
	grammar.switch(case['model'], True)
	result = set()
	for sent in case['sents']:
		ref, chart, numderivs = kbest(case, model, grammar, sent)
		if not ref:
			continue
		disambiguation.getderivations(chart, numderivs + 10, True)
		results, msg = disambiguation.marginalize('mcp', chart,
				mcplambda=labda)
		same(len(results), 1, 'number of results; %s' % msg)
		tree = readspec(results[0][0])
		same(leavesof(tree) and sorted(leavesof(tree)),
				list(range(len(sent))), 'indices of %s' % results[0][0])
		probs = {a: sum(model.prob(d, model.weight) for d in b)
				for a, b in ref.items()}
		total = sum(probs.values())
		mass = Counter()
		for a, p in probs.items():
			for x in constituents(readspec(a)):
				mass[x] += p / total

		def objective(spec):
			return sum(max(0, mass[a] - labda * (1 - mass[a]))
					for a in constituents(spec))
		cons = constituents(tree)
		full = lcfrs.maskof(range(len(sent)))
		for a in cons:
			check(a in mass, 'constituent not in any parse tree: %r', a)
			check(mass[a] - labda * (1 - mass[a]) > -1e-9 or a[1] == full
					or a[1] & (a[1] - 1) == 0,
					'constituent with negative contribution: %r', a)
		best = max(objective(readspec(a)) for a in ref)
		check(objective(tree) >= best - 1e-6, 'objective: %g, parse tree '
				'with %g', objective(tree), best)
		if len(ref) == 1:
			same(results[0][0], list(ref)[0], 'only parse tree')
		else:
			result.add(case['kind'])
			if labda != 1:
				result.add('lambda')
	return sorted(result)
