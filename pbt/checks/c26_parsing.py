"""C26: the chart parsers find exactly the derivations of the grammar."""
import re
import math
import random
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same
from gens import leavesof, biased
from lcfrs import Forest, readchart, close, prepare, probof

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest')


def compare(chart, msg, ref, sent, items=None):
	"""Compare chart to reference forest."""
	n = len(sent)
	same(bool(chart), ref.parsed(), 'parse success: %s', msg)
	same(msg.startswith('no parse') or msg.startswith(' no parse'),
			not ref.parsed(), 'message %r', msg)
	if not ref.recognized:
		return
	got = {k: v for k, v in readchart(chart, n).items() if v[1]}
	same(sorted(got), sorted(ref.edges), 'items in chart')
	best = ref.viterbi()
	for item in ref.edges:
		prob, edges = got[item]
		check(close(prob, best[item]), 'Viterbi probability of %r: got %g '
				'expected %g', item, prob, best[item])
		same(sorted(a[1:] for a in edges),
				sorted(a[1:] for a in ref.edges[item]), 'edges of %r', item)
		for a, b in zip(sorted(edges, key=lambda x: (x[1:], x[0])), sorted(
				ref.edges[item], key=lambda x: (x[1:], x[0]))):
			check(close(a[0], b[0]), 'edge of %r: probability %g '
					'expected %g', item, a[0], b[0])
	m = re.search('items ([0-9]+), edges ([0-9]+)', msg)
	if m:
		same(int(m.group(2)), sum(map(len, ref.edges.values())), 'no of edges')


def viterbi(chart, ref, sent):
	"""Check Viterbi derivation."""
	from discodop.kbest import lazykbest
	from discodop.tree import Tree
	result = lazykbest(chart, 1)
	same(len(result), 1, 'number of derivations')
	deriv, prob = result[0]
	best = ref.viterbi()[ref.root]
	check(abs(prob + math.log(best)) < 1e-9 * max(1, abs(prob)),
			'log probability of best derivation: %r expected %r',
			prob, -math.log(best))
	check(close(probof(Tree(deriv), ref), best, 1e-9),
			'derivation %s does not have probability %g', deriv, best)


def classes(g, ref, sent):
	result = []
	if ref.parsed():
		result.append('parsed')
		keep = ref.reachable()
		if any(len(ref.edges[a]) > 1 for a in keep):
			result.append('ambiguous')
		if any(lcfrs.fanoutof(a[1]) > 1 for a in keep):
			result.append('disc')
		if any(len(e) == 2 for a in keep for e in ref.edges[a]):
			result.append('unary')
		if ref.order() is None:
			result.append('cyclic')
		return result
	return ['unparsed'] if ref.edges else []


RULE = 'some word sequence is recognized (items are derived)'


@prop(lcfrs.grammars(), 1200, rule=RULE)
def lcfrs_chart(arg):
	"""Chart of LCFRS parser is the complete forest, with Viterbi scores."""
	from discodop import plcfrs
	g, sents = arg
	grammar = prepare(g)
	result = []
	for sent in sents:
		ref = Forest(g, sent)
		chart, msg = plcfrs.parse(sent, grammar)
		compare(chart, msg, ref, sent)
		if ref.parsed():
			viterbi(chart, ref, sent)
			chart, msg = plcfrs.parse(sent, grammar, exhaustive=False)
			check(chart, 'non-exhaustive parse failed')
			viterbi(chart, ref, sent)
		result += classes(g, ref, sent)
	return result


@prop(lcfrs.grammars(disc=False), 500, rule=RULE)
def cfg_chart(arg):
	"""Charts of CKY parser and LCFRS parser are the same complete forest."""
	from discodop import pcfg, plcfrs
	g, sents = arg
	if not lcfrs.iscfg(g):
		return ()
	grammar = prepare(g)
	result = []
	for sent in sents:
		ref = Forest(g, sent)
		for parser in (pcfg, plcfrs):
			chart, msg = parser.parse(sent, grammar)
			compare(chart, msg, ref, sent)
			if ref.parsed():
				viterbi(chart, ref, sent)
		result += classes(g, ref, sent)
	return result


@prop(st.tuples(lcfrs.densegrammars(False) | lcfrs.densegrammars(True),
		st.integers(0, 1 << 30), st.sampled_from((0, 1, 3))), 200, rule=RULE)
def dense(arg):
	"""The charts are complete when there are many rules and few labels;
	also when some of the rules are disabled by a mask."""
	from discodop import pcfg, plcfrs
	(g, sents), seed, num = arg
	grammar = prepare(g)
	mask = {n for n in range(len(g['rules']))
			if random.Random(seed + n).randrange(4) < num}
	result = []
	for sent in sents:
		for active in (None, mask):
			grammar.setmask(active if active is None else sorted(active))
			ref = Forest(g, sent, mask=active)
			for parser in (pcfg, plcfrs) if lcfrs.iscfg(g) else (plcfrs, ):
				chart, msg = parser.parse(sent, grammar)
				compare(chart, msg, ref, sent)
				if ref.parsed():
					viterbi(chart, ref, sent)
			result += classes(g, ref, sent)
	return result + ['rules>=%d' % (len(g['rules']) // 64 * 64)]


@st.composite
def constrained(draw):
	g, sents = draw(lcfrs.grammars(disc=draw(st.booleans()), maxleaves=5))
	tags = sorted({a for a, _, _ in g['lex']})
	labels = sorted({a[0] for a in g['rules']})
	sent = sents[0]
	mode = draw(st.sampled_from(('tags', 'start', 'mask', 'case', 'unknown')))
	extra = None
	if mode == 'tags':
		# state splits of POS tags
		splits = {}
		for tag in tags:
			splits[tag] = draw(st.sampled_from((tag, tag, tag + '^A',
					tag + '@1-2', tag + '-HD', tag + '/m', tag + 'Z')))
		g = rename(g, splits)
		extra = [draw(st.sampled_from(tags + [None, None])) for _ in sent]
	elif mode == 'start':
		extra = draw(st.sampled_from(labels))
	elif mode == 'mask':
		extra = sorted(draw(st.sets(
				st.integers(0, len(g['rules']) - 1))))
	elif mode == 'case':
		sent = [a.upper() if draw(st.booleans()) else a for a in sent]
		if draw(st.booleans()):
			g['lex'].append((tags[0], 'A', 1))
	else:
		sent = list(sent)
		sent[draw(st.integers(0, len(sent) - 1))] = 'unknown'
		extra = [draw(st.sampled_from(tags)) if a == 'unknown'
				and draw(st.booleans()) else None for a in sent]
	return g, sent, mode, extra


def rename(g, splits):
	return {'rules': [(splits.get(lhs, lhs), tuple(splits.get(a, a)
				for a in rhs), yf, w) for lhs, rhs, yf, w in g['rules']],
			'lex': [(splits[tag], word, w) for tag, word, w in g['lex']]}


@prop(constrained(), 600, rule='the constraint allows a parse')
def constraints(arg):
	"""Given tags, start symbol, and mask of rules restrict the forest."""
	from discodop import pcfg, plcfrs
	g, sent, mode, extra = arg
	grammar = prepare(g)
	kwds, refkwds = {}, {}
	if mode == 'tags' or mode == 'unknown':
		kwds['tags'] = extra
		alltags = sorted({a for a, _, _ in g['lex']})
		refkwds['tags'] = [None if tag is None else {a for a in alltags
				if a == tag or re.match(re.escape(tag) + '[-@^/]', a)}
				for tag in extra]
		# when tag is given for a word that does not have it: probability 1
		mass = lcfrs.masses(g)
		lexitems = []
		for word, tag, ok in zip(sent, extra, refkwds['tags']):
			cands = [(a, w / mass[a]) for a, b, w in g['lex'] if b == word]
			if ok is not None and not any(a in ok for a, _ in cands):
				cands = [(a, 1.0) for a in ok]
			lexitems.append(cands)
		refkwds['lexitems'] = lexitems
	elif mode == 'start':
		kwds['start'] = refkwds['root'] = extra
	elif mode == 'mask':
		grammar.setmask(extra)
		refkwds['mask'] = set(extra)
	ref = Forest(g, sent, **refkwds)
	parsers = (pcfg, plcfrs) if lcfrs.iscfg(g) else (plcfrs, )
	for parser in parsers:
		chart, msg = parser.parse(sent, grammar, **kwds)
		if mode == 'start' and parser is plcfrs:
			# items with the goal are not expanded further
			same(bool(chart), ref.parsed(), 'parse success')
		else:
			compare(chart, msg, ref, sent)
		if ref.parsed() and not (mode == 'start' and parser is plcfrs):
			viterbi(chart, ref, sent)
	if mode == 'mask':
		grammar.setmask(None)
		compare(parsers[0].parse(sent, grammar)[0], '' if Forest(g, sent
				).parsed() else 'no parse', Forest(g, sent), sent)
	return (mode, ) if ref.parsed() else ()


def longtree(rnd, n, disc, nlabels):
	"""Random binary tree with n leaves."""
	def build(indices):
		if len(indices) == 1:
			return ['X%d' % rnd.randrange(40), [indices[0]]]
		if disc and len(indices) > 2 and rnd.random() < 0.4:
			# one discontinuity: take a block from the middle
			a = rnd.randrange(1, len(indices) - 1)
			b = rnd.randrange(a + 1, len(indices))
			left, right = indices[:a] + indices[b:], indices[a:b]
		else:
			a = rnd.choice((1, len(indices) - 1,
					rnd.randrange(1, len(indices))))
			left, right = indices[:a], indices[a:]
		return ['N%d' % rnd.randrange(nlabels), [build(left), build(right)]]
	return ['ROOT', [build(list(range(n)))]]


@prop(st.tuples(st.sampled_from((62, 63, 64, 65, 70, 96, 126, 127)),
		st.booleans(), st.integers(0, 1 << 30)), 40,
		rule='all cases: sentence of more than 60 words')
def long_sentences(arg):
	"""Charts for sentences that do not fit in a machine word."""
	from discodop import pcfg, plcfrs
	n, disc, seed = arg
	rnd = random.Random(seed)
	spec = longtree(rnd, n, disc, 50)
	sent = ['w%d' % rnd.randrange(30) for _ in range(n)]
	for i, word in enumerate(sent):  # limit POS ambiguity
		if rnd.random() < 0.9:
			sent[i] = '%s.%d' % (word, i)
	g = lcfrs.extract([(spec, sent)])
	if max(len(lcfrs.spansof(lcfrs.maskof(leavesof(a))))
			for a in lcfrs_nodes(spec)) > 6:
		return ()
	ref = Forest(g, sent)
	grammar = prepare(g)
	for parser in (pcfg, plcfrs) if lcfrs.iscfg(g) else (plcfrs, ):
		chart, msg = parser.parse(sent, grammar)
		compare(chart, msg, ref, sent)
		viterbi(chart, ref, sent)
	return ['disc' if not lcfrs.iscfg(g) else 'cfg', str(n)]


def lcfrs_nodes(spec):
	if isinstance(spec, int):
		return []
	return [spec] + [b for a in spec[1] for b in lcfrs_nodes(a)]


@prop(lcfrs.grammars(disc=False), 25, 200, rule=RULE)
def many_labels(arg):
	"""The chart for grammars with many labels is the same."""
	from discodop import pcfg
	g, sents = arg
	if not lcfrs.iscfg(g):
		return ()
	big = {'rules': g['rules'], 'lex': g['lex'] + [
			('UNUSED%d' % n, 'unused', 1) for n in range(20000)]}
	grammar = prepare(big)
	result = []
	for sent in sents:
		ref = Forest(g, sent)
		chart, msg = pcfg.parse(sent, grammar)
		same(type(chart).__name__, 'SparseCFGChart')
		compare(chart, msg, ref, sent)
		if ref.parsed():
			viterbi(chart, ref, sent)
		result += classes(g, ref, sent)
	return result


@prop(st.tuples(st.integers(128, 300), st.booleans()), 10, 50,
		rule='all cases: sentence too long for the LCFRS parser')
def too_long(arg):
	"""Sentences that are too long for the LCFRS parser are refused."""
	from discodop import pcfg, plcfrs
	n, right = arg
	g = {'rules': [('ROOT', ('A', ), ((0, ), ), 1),
			('A', ('X', 'A') if right else ('A', 'X'), ((0, 1), ), 1),
			('A', ('X', ), ((0, ), ), 1)], 'lex': [('X', 'a', 1)]}
	grammar = prepare(g)
	try:
		chart, _ = plcfrs.parse(['a'] * n, grammar)
	except ValueError:
		pass
	else:
		check(not chart, 'unexpected parse')
	check(pcfg.parse(['a'] * n, grammar)[0], 'CFG parse')
	return True
