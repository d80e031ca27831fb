"""C35: outside estimates are admissible and preserve the best derivation."""
import io
import math
from contextlib import redirect_stdout
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same
from lcfrs import Forest, readchart, close, prepare, probof, indicesof

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'estimates')
ASSUMPTIONS = ['weights are relative frequencies (at most 1)',
		'SXlrgaps: the right hand side of each rule is in order of the first '
		'component, as in grammars extracted from treebanks']


def relax(update, todo):
	"""Repeat update until nothing changes."""
	while todo:
		todo = update(todo)


def exact(g, maxlen, root='ROOT'):
	"""Best inside probability per (label, length); and best outside
	probability per (label, left, right), for any sentence."""
	mass = lcfrs.masses(g)
	rules = [(lhs, rhs, w / mass[lhs]) for lhs, rhs, _, w in g['rules']]
	inside = {}
	for tag, _, w in g['lex']:
		inside[tag, 1] = max(inside.get((tag, 1), 0), w / mass[tag])
	changed = True
	while changed:
		changed = False
		for lhs, rhs, p in rules:
			for n in range(1, maxlen + 1):
				if len(rhs) == 1:
					new = p * inside.get((rhs[0], n), 0)
				else:
					new = max([p * inside.get((rhs[0], m), 0)
							* inside.get((rhs[1], n - m), 0)
							for m in range(1, n)] + [0])
				if new > inside.get((lhs, n), 0) * (1 + 1e-12):
					inside[lhs, n] = new
					changed = True
	outside = {(root, 0, 0): 1.0}
	changed = True
	while changed:
		changed = False
		for (lhs, left, right), x in list(outside.items()):
			for a, rhs, p in rules:
				if a != lhs:
					continue
				new = []
				if len(rhs) == 1:
					new.append(((rhs[0], left, right), p * x))
				else:
					for n in range(1, maxlen - left - right):
						new.append(((rhs[0], left, right + n),
								p * x * inside.get((rhs[1], n), 0)))
						new.append(((rhs[1], left + n, right),
								p * x * inside.get((rhs[0], n), 0)))
				for key, y in new:
					if y > outside.get(key, 0) * (1 + 1e-12):
						outside[key] = y
						changed = True
	return inside, outside


def bestoutside(forest):
	"""Best outside probability of each item."""
	inside = forest.viterbi()
	out = {forest.root: 1.0}
	changed = True
	while changed:
		changed = False
		for item, x in list(out.items()):
			for edge in forest.edges[item]:
				for n, a in enumerate(edge[1:], 1):
					y = x * edge[0]
					for m, b in enumerate(edge[1:], 1):
						if m != n:
							y *= inside[b]
					if y > out.get(a, 0) * (1 + 1e-12):
						out[a] = y
						changed = True
	return out


def ordered(g):
	"""Reorder right hand sides such that the first component is of the
	first non-terminal."""
	rules = {}
	for lhs, rhs, yf, w in g['rules']:
		if yf[0][0] == 1:
			rhs = rhs[::-1]
			yf = tuple(tuple(1 - b for b in a) for a in yf)
		rules[lhs, tuple(rhs), yf] = w
	return {'rules': [k + (w, ) for k, w in rules.items()], 'lex': g['lex']}


@st.composite
def cases(draw, disc):
	g, sents = draw(lcfrs.grammars(disc=disc, maxleaves=7,
			unary=draw(st.booleans())))
	return ordered(g), sents, draw(st.sampled_from((6, 5, 7, 4, 3, 2, 1)))


@st.composite
def densecases(draw, disc):
	g, sents = draw(lcfrs.densegrammars(disc))
	return ordered(g), sents, draw(st.sampled_from((5, 4, 6, 3, 2)))


def quiet(func, *args):
	with redirect_stdout(io.StringIO()):
		return func(*args)


def labelindex(grammar):
	return {a: n for n, a in enumerate(grammar.getlabels(), 1)}


def parses(g, grammar, sents, kind, table, maxlen, lookup):
	"""Compare parsing with and without estimates."""
	from discodop import plcfrs
	from discodop.kbest import lazykbest
	from discodop.tree import Tree
	ids = labelindex(grammar)
	result = []
	for sent in sents:
		n = len(sent)
		forest = Forest(g, sent)
		out = bestoutside(forest) if forest.parsed() else {}
		if n <= maxlen:
			for (label, mask), p in out.items():
				est = lookup(table, ids[label], mask, n)
				check(est <= -math.log(p) + 1e-9, 'estimate of %s %s is not '
						'admissible: %g, but best outside score is %g',
						label, indicesof(mask), est, -math.log(p))
		best = forest.viterbi() if forest.recognized else {}
		for exhaustive in (False, True):
			chart, msg = plcfrs.parse(sent, grammar, exhaustive=exhaustive,
					estimates=(kind, table))
			same(bool(chart), forest.parsed(), 'parse success: %s', msg)
			if not chart:
				continue
			(deriv, prob), = lazykbest(chart, 1)
			check(close(math.exp(-prob), best[forest.root]), 'exhaustive=%s: '
					'probability of best derivation with estimates %g, '
					'without: %g', exhaustive, math.exp(-prob),
					best[forest.root])
			check(close(probof(Tree(deriv), forest), best[forest.root]),
					'derivation does not have this probability: %s', deriv)
			got = {k: v for k, v in readchart(chart, n).items() if v[1]}
			for item, (p, edges) in got.items():
				check(item in forest.edges, 'unexpected item %r', item)
				if exhaustive and item in out:
					check(close(p, best[item], 1e-4), 'probability of %r: '
							'%g expected %g', item, p, best[item])
				keys = [a[1:] for a in edges]
				check(all(keys.count(a) == [b[1:] for b in forest.edges[item]
						].count(a) for a in keys), 'edges of %r: %r', item,
						edges)
			if exhaustive:
				for item in out:
					check(item in got, 'item %r is missing', item)
					same(sorted(a[1:] for a in got[item][1]), sorted(
							a[1:] for a in forest.edges[item]),
							'edges of %r', item)
		if forest.parsed():
			result.append('parsed' if n <= maxlen else 'toolong')
			if len(out) < len(forest.edges):
				result.append('deadends')
			if any(lcfrs.fanoutof(a) > 1 for _, a in out):
				result.append('disc')
	return result


@prop(cases(False), 1000, rule='a sentence is parsed')
def sx(arg):
	"""The SX estimate is exact, and does not change the best derivation."""
	from discodop.estimates import getpcfgestimates
	g, sents, maxlen = arg
	grammar = prepare(g)
	table = quiet(getpcfgestimates, grammar, maxlen, 'ROOT')
	_, outside = exact(g, maxlen)
	for label, n in labelindex(grammar).items():
		for left in range(maxlen):
			for right in range(maxlen - left):
				p = outside.get((label, left, right), 0)
				got = math.exp(-table[n, left, right, 0])
				check(close(got, p), 'estimate of %s[%d-%d]: %g expected %g',
						label, left, right, got, p)

	def lookup(table, label, mask, n):
		left = indicesof(mask)[0]
		return table[label, left, n - left - len(indicesof(mask)), 0]
	return parses(g, grammar, sents, 'SX', table, maxlen, lookup)


@prop(densecases(False), 250, rule='a sentence is parsed')
def sxdense(arg):
	"""The SX estimate is exact when there are more rules than labels."""
	return sx(arg)


@prop(st.one_of(densecases(True), densecases(False)), 300, rule='a sentence is parsed')
def lrgapsdense(arg):
	"""The SXlrgaps estimate is admissible when there are more rules than
	labels."""
	return lrgaps(arg)


@prop(cases(True), 1200, rule='a sentence is parsed')
def lrgaps(arg):
	"""The SXlrgaps estimate is admissible, and does not change the best
	derivation."""
	from discodop.estimates import getestimates
	g, sents, maxlen = arg
	grammar = prepare(g)
	table = quiet(getestimates, grammar, maxlen, 'ROOT')

	def lookup(table, label, mask, n):
		length = len(indicesof(mask))
		gaps = indicesof(mask)[-1] + 1 - indicesof(mask)[0] - length
		return table[label, length, n - length - gaps, gaps]
	return parses(g, grammar, sents, 'SXlrgaps', table, maxlen, lookup)
