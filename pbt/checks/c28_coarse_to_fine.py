"""C28: coarse-to-fine pruning keeps exactly what it promises."""
import re
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same, raises
from gens import leavesof, ispre, biased
from lcfrs import Forest, readchart, close, prepare

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine')
STRIP = re.compile('@[0-9]+$')
PAD = 60  # words; such that the sentence does not fit in a machine word


# --- generators ---------------------------------------------------------------

def splitspec(spec, markorigin):
	"""Replace discontinuous nodes by a node for each component.

	Returns list of (spec with contiguous nodes only)."""
	if ispre(spec):
		return [spec]
	label = spec[0]
	parts = [a for kid in spec[1] for a in splitspec(kid, markorigin)]
	parts.sort(key=lambda a: min(leavesof(a)))
	spans = lcfrs.spansof(lcfrs.maskof(leavesof(spec)))
	result = []
	for n, (a, b) in enumerate(spans):
		name = label
		if len(spans) > 1:
			name = '%s_%d*%s' % (label, len(spans), n if markorigin else '')
		kids = [x for x in parts if a <= min(leavesof(x)) < b]
		while len(kids) > 2:
			kids[-2:] = [['%s:' % name, kids[-2:]]]
		result.append([name, kids])
	return result


def pad(g):
	ren = lambda a: 'R' if a == 'ROOT' else a
	rules = [(ren(lhs), tuple(map(ren, rhs)), yf, w)
			for lhs, rhs, yf, w in g['rules']]
	rules.append(('ROOT', ('Q0', ), ((0, ), ), 1))
	for n in range(PAD):
		rules.append(('Q%d' % n, ('T%d' % n, 'Q%d' % (n + 1)
				if n + 1 < PAD else 'R'), ((0, 1), ), 1))
	return {'rules': rules, 'lex': g['lex'] + [
			('T%d' % n, 'p%d' % n, 1) for n in range(PAD)]}


@st.composite
def splits(draw, g):
	"""A grammar in which labels are split; drops some of the rules."""
	variants = {}

	def pick(label):
		if label == 'ROOT' or re.match('[QTR][0-9]*$', label):
			return label
		if label not in variants:
			variants[label] = draw(st.sampled_from((
					[''], ['', '@1'], ['@1', '@2'], ['@7'])))
		return label + draw(st.sampled_from(variants[label]))
	rules, lex = {}, {}
	for lhs, rhs, yf, _ in g['rules']:
		for _ in range(1 if lhs[0] in 'QT' else 2):
			rules[pick(lhs), tuple(map(pick, rhs)), yf] = draw(
					st.integers(1, 9))
	for tag, word, _ in g['lex']:
		for _ in range(1 if tag[0] in 'QT' else 2):
			lex[pick(tag), word] = draw(st.integers(1, 5))
	return lcfrs.useful({'rules': [a + (b, ) for a, b in rules.items()],
			'lex': [a + (b, ) for a, b in lex.items()]})


KS = st.one_of(st.just(0), st.integers(1, 12),
		st.sampled_from((1e-9, 1e-4, 0.003, 0.01, 0.05, 0.1, 0.3, 0.6)))


@st.composite
def cases(draw, mode=None):
	mode = mode or draw(st.sampled_from(('cfg', 'lcfrs', 'mixed')))
	g, sents = draw(lcfrs.grammars(disc=mode == 'lcfrs', acyclic=True,
			maxleaves=6, extra=6))
	if biased(draw, 5, 1):
		sents = [[b.upper() if draw(st.booleans()) else b for b in a]
				for a in sents]
	long = biased(draw, 5, 1)
	if long:
		g = pad(g)
		sents = [['p%d' % n for n in range(PAD)] + list(a) for a in sents]
	fine = draw(splits(g))
	return {'mode': mode, 'coarse': g, 'fine': fine, 'sents': sents,
			'k': draw(KS),
			'never': draw(st.sampled_from((None, None, '^B', '^X', '^[AC]'))),
			'twice': draw(st.booleans())}


# --- oracle ---------------------------------------------------------------------

def coarseparse(case, grammar, sent):
	"""The coarse chart; possibly itself the result of pruning."""
	from discodop import pcfg, plcfrs, coarsetofine
	parser = plcfrs if case['mode'] == 'lcfrs' else pcfg
	chart, msg = parser.parse(sent, grammar)
	if chart and case.get('twice'):
		grammar.getmapping(grammar)
		whitelist, _ = coarsetofine.prunechart(chart, grammar, 0, False,
				False, parser is pcfg)
		chart, msg = parser.parse(sent, grammar, whitelist=whitelist)
		check(chart, 'no parse with whitelist of grammar itself: %s', msg)
	return chart


def itemsof(deriv):
	from discodop.tree import Tree
	return {(a.label, lcfrs.maskof(a.leaves()))
			for a in Tree(deriv).subtrees()}


def bounds(case, forest, chart, k):
	"""Return (items that must, items that may be kept)."""
	from discodop.kbest import lazykbest
	reach = forest.reachable()
	if k == 0:
		return reach, reach
	elif k < 1:
		inside = forest.inside()
		outside = forest.outside(inside)
		post = {a: inside[a] * outside[a] / inside[forest.root]
				for a in reach}
		return ({a for a in reach if post[a] > k * (1 + 1e-6)},
				{a for a in reach if post[a] > k * (1 - 1e-6)})
	must = set()
	for deriv, _ in lazykbest(chart, k):
		must |= itemsof(deriv)
	return must, (must if k <= 3 else reach)


def allowance(items, fine, never, split=None):
	"""Function to decide whether a fine item is allowed."""
	fanouts = {}
	for lhs, _, yf, _ in fine['rules']:
		fanouts[lhs] = len(yf)

	def allowed(label, mask):
		if never is not None and re.search(never, label):
			return True
		label1 = STRIP.sub('', label)
		if split is not None and fanouts.get(label, 1) > 1:
			return all((label1 + '*' + (str(n) if split else ''),
					(1 << b) - (1 << a)) in items
					for n, (a, b) in enumerate(lcfrs.spansof(mask)))
		return (label1, mask) in items
	return allowed


def compare(case, chart, msg, sent, must, may, split=None):
	"""Check fine chart against what the whitelist should allow."""
	fine = case['fine']
	low = Forest(fine, sent, allowed=allowance(
			must, fine, case['never'], split))
	high = low if must == may else Forest(fine, sent, allowed=allowance(
			may, fine, case['never'], split))
	if low.parsed():
		check(chart, 'no parse with fine grammar: %s', msg)
	if not high.parsed():
		check(not chart, 'parse with fine grammar: %s', msg)
	if not high.recognized:
		return low, high
	got = {k: v for k, v in readchart(chart, len(sent)).items() if v[1]}
	if low.recognized:
		for item in low.edges:
			check(item in got, 'item %r missing from pruned chart', item)
			missing = {a[1:] for a in low.edges[item]} - {
					a[1:] for a in got[item][1]}
			check(not missing, 'edges of %r missing: %r', item, missing)
	if got and low.recognized:
		for item in got:
			check(item in high.edges, 'item %r is not pruned', item)
			extra = {a[1:] for a in got[item][1]} - {
					a[1:] for a in high.edges[item]}
			check(not extra, 'edges of %r not pruned: %r', item, extra)
	if low is high and chart:
		best = low.viterbi()
		for item in low.edges:
			check(close(got[item][0], best[item]), 'Viterbi probability '
					'of %r: %g, expected %g', item, got[item][0], best[item])
	return low, high


def classes(case, forest, low, full):
	if not forest.parsed():
		return ()
	result = ['k-best' if case['k'] >= 1 else
			'posterior' if case['k'] else 'filter']
	if len(case['sents'][0]) > PAD:
		result.append('long')
	if low.parsed():
		result.append('fine parse')
	if len(low.edges) < len(full.edges):
		result.append('pruned')
	return result


RULE = 'there is a parse with the coarse grammar'


@prop(cases(), 900, rule=RULE)
def pruning(case):
	"""The fine chart has the items whose projections are kept; no others."""
	from discodop import pcfg, plcfrs, coarsetofine
	g, fine, k, never = (case['coarse'], case['fine'], case['k'],
			case['never'])
	if not all(any(a[0] == 'ROOT' for a in b['rules']) for b in (g, fine)):
		return ()
	coarse = prepare(g)
	finegrammar = prepare(fine)
	finegrammar.getmapping(coarse, STRIP, re.compile(never) if never else None)
	result = set()
	for sent in case['sents']:
		forest = Forest(g, sent)
		chart = coarseparse(case, coarse, sent)
		same(bool(chart), forest.parsed(), 'parse with coarse grammar')
		if not chart:
			continue
		finecfg = case['mode'] == 'cfg'
		whitelist, msg = coarsetofine.prunechart(chart, finegrammar, k,
				False, False, finecfg)
		must, may = bounds(case, forest, chart, k)
		finechart, msg = (pcfg if finecfg else plcfrs).parse(
				sent, finegrammar, whitelist=whitelist)
		low, _ = compare(case, finechart, msg, sent, must, may)
		result.update(classes(case, forest, low, Forest(fine, sent)))
	return sorted(result)


@st.composite
def splitcases(draw):
	"""Coarse grammar with components of discontinuous constituents."""
	markorigin = draw(st.booleans())
	pairs, coarsepairs = [], []
	for _ in range(draw(st.integers(1, 3))):
		spec = draw(lcfrs.binspecs(minleaves=2, maxleaves=7))
		sent = [draw(st.sampled_from(lcfrs.WORDS)) for _ in leavesof(spec)]
		pairs.append((spec, sent))
		coarsepairs.append((splitspec(spec, markorigin)[0], sent))
	g = lcfrs.extract(pairs)
	coarse = lcfrs.extract(coarsepairs, fanouts=False)
	coarse['rules'] = lcfrs.dropcycles(coarse['rules'])
	coarse = lcfrs.useful(coarse)
	seen = set(lcfrs.masses(coarse))
	# drop rules of fine grammar with labels not in coarse grammar
	extra = []
	for lhs, rhs, yf, w in g['rules']:
		if all(b in seen for a in (lhs, ) + rhs for b in (
				[a] if '_' not in a else [a + '*'] if not markorigin else
				['%s*%d' % (a, n) for n in range(int(a.split('_')[1]))])):
			extra.append((lhs, rhs, yf, w))
	g = lcfrs.useful({'rules': lcfrs.dropcycles(extra), 'lex': g['lex']})
	sents = [draw(st.sampled_from([b for _, b in pairs]))]
	if biased(draw, 3, 1):
		sents.append([draw(st.sampled_from(lcfrs.WORDS[:2]))
				for _ in range(draw(st.integers(1, 7)))])
	if biased(draw, 6, 1):
		coarse, g = pad(coarse), pad(g)
		sents = [['p%d' % n for n in range(PAD)] + list(a) for a in sents]
	return {'mode': 'split', 'coarse': coarse, 'fine': draw(splits(g)),
			'sents': sents, 'k': draw(KS), 'markorigin': markorigin,
			'twice': draw(st.booleans()),
			'never': draw(st.sampled_from((None, None, '^B', '_2', '^[AC]')))}


@prop(splitcases(), 700, rule=RULE)
def split(case):
	"""Discontinuous items are kept iff all of their components are."""
	from discodop import pcfg, plcfrs, coarsetofine
	g, fine, k, never, markorigin = (case['coarse'], case['fine'],
			case['k'], case['never'], case['markorigin'])
	if not all(any(a[0] == 'ROOT' for a in b['rules']) for b in (g, fine)):
		return ()
	same(lcfrs.iscfg(g), True, 'internal')
	coarse = prepare(g)
	finegrammar = prepare(fine)
	finegrammar.getmapping(coarse, STRIP, re.compile(never) if never else None,
			True, markorigin)
	result = set()
	for sent in case['sents']:
		forest = Forest(g, sent)
		chart = coarseparse(case, coarse, sent)
		same(bool(chart), forest.parsed(), 'parse with coarse grammar')
		if not chart:
			continue
		whitelist, msg = coarsetofine.prunechart(chart, finegrammar, k,
				True, markorigin, False)
		must, may = bounds(case, forest, chart, k)
		finechart, msg = plcfrs.parse(sent, finegrammar,
				whitelist=whitelist, splitprune=True, markorigin=markorigin)
		low, _ = compare(case, finechart, msg, sent, must, may, markorigin)
		result.update(classes(case, forest, low, Forest(fine, sent)))
		if any(lcfrs.fanoutof(a[1]) > 1 for a in low.edges):
			result.add('disc')
	return sorted(result)


def plain(label):
	return re.sub(r'_[0-9]+$', '', label)


@st.composite
def constrained(draw):
	case = draw(cases())
	case['k'] = draw(st.sampled_from((0, 1, 2, 3, 5, 10, 30, 0.01)))
	case['twice'] = draw(st.booleans())
	case['never'] = None
	labels = sorted({plain(a[0]) for a in case['coarse']['rules']}
			| {a[0] for a in case['coarse']['lex']})
	n = len(case['sents'][0])

	def spans(maxsize):
		result = []
		for _ in range(draw(st.integers(0, maxsize))):
			if biased(draw, 3, 2):  # the Nth item in the forest
				result.append(draw(st.integers(0, 50)))
				continue
			a = draw(st.integers(max(0, n - 7), n - 1))
			indices = list(range(a, draw(st.integers(a + 1, n))))
			if biased(draw, 3, 1) and case['mode'] == 'lcfrs':
				indices = sorted(set(draw(st.permutations(range(max(
						0, n - 7), n)))[:2]))
			result.append((draw(st.sampled_from(labels)), tuple(indices)))
		return result
	case['require'] = spans(2)
	case['block'] = spans(2) if case['k'] < 1 or biased(draw, 2, 1) else []
	return case


@prop(constrained(), 900, rule=RULE + ', and a constraint applies')
def constraints(case):
	"""Required constituents are in all derivations kept; blocked ones go."""
	from discodop import pcfg, plcfrs, coarsetofine
	from discodop.kbest import lazykbest
	g, fine, k = case['coarse'], case['fine'], case['k']
	if not all(any(a[0] == 'ROOT' for a in b['rules']) for b in (g, fine)):
		return ()
	coarse = prepare(g)
	finegrammar = prepare(fine)
	finegrammar.getmapping(coarse, STRIP)
	sent = case['sents'][0]
	finecfg = case['mode'] == 'cfg'
	forest = Forest(g, sent)
	chart = coarseparse(case, coarse, sent)
	if not chart:
		return ()

	pool = sorted(forest.reachable())

	def spans(constraints):
		return [a if isinstance(a, tuple) else (plain(pool[a % len(pool)][0]),
				tuple(lcfrs.indicesof(pool[a % len(pool)][1])))
				for a in constraints]

	def items(constraints):
		return [(label, lcfrs.maskof(indices))
				for label, indices in constraints]

	def matches(item, constraint):
		return (plain(item[0]), item[1]) == constraint
	kwds = dict(require=spans(case['require']), block=spans(case['block']))
	require, block = items(kwds['require']), items(kwds['block'])
	result = []
	must, may = bounds(case, forest, chart, k)
	if require and k >= 1:
		if not all(any(matches(a, b) for a in forest.edges)
				for b in require):
			raises(ValueError, coarsetofine.prunechart, chart, finegrammar,
					k, False, False, finecfg, **kwds)
			return ['not in chart']
		must = set()
		for deriv, _ in lazykbest(chart, k):
			found = itemsof(deriv)
			if all(any(matches(a, b) for a in found) for b in require):
				must |= found
		may = must
		result.append('require')
	if block:
		if any(matches(a, b) for a in may for b in block):
			result.append('block')
		must, may = [{a for a in b if not any(matches(a, c) for c in block)}
				for b in (must, may)]
	try:
		whitelist, msg = coarsetofine.prunechart(chart, finegrammar, k,
				False, False, finecfg, **kwds)
	except ValueError:
		check(require and k >= 1 and not must, 'constraints refused')
		return ['not in derivations']
	finechart, msg = (pcfg if finecfg else plcfrs).parse(
			sent, finegrammar, whitelist=whitelist)
	low, _ = compare(case, finechart, msg, sent, must, may)
	if result and low.parsed():
		result.append('fine parse')
	return result


@prop(st.tuples(cases(), st.booleans(), st.booleans()), 300,
		rule='all cases: a mapping of labels is made')
def mapping(arg):
	"""The mapping of labels is checked; labels may be renamed."""
	from discodop import pcfg, plcfrs, coarsetofine
	case, rename, missing = arg
	g, fine, k = case['coarse'], case['fine'], case['k']
	if not all(any(a[0] == 'ROOT' for a in b['rules']) for b in (g, fine)):
		return ()
	kwds = {}
	coarselabels = set(lcfrs.masses(g))
	finelabels = set(lcfrs.masses(fine))
	result = ['renamed'] if rename else ['plain']
	coarse, finegrammar = prepare(g), prepare(fine)
	if rename:  # fine labels are arbitrary
		names = {a: a if a == 'ROOT' else 'L%d%s' % (n,
				'_' + a.split('@')[0].split('_')[1] if '_' in a else '')
				for n, a in enumerate(sorted(finelabels))}
		fine1 = {'rules': [(names[a], tuple(names[b] for b in rhs), yf, w)
					for a, rhs, yf, w in fine['rules']],
				'lex': [(names[a], b, w) for a, b, w in fine['lex']]}
		finegrammar = prepare(fine1)
		kwds['mapping'] = {b: STRIP.sub('', a) for a, b in names.items()}
		kwds['mapping']['Epsilon'] = 'Epsilon'
	sent = case['sents'][0]
	forest = Forest(g, sent)
	chart = coarseparse(case, coarse, sent)
	if chart:  # should not silently give garbage
		raises(ValueError, coarsetofine.prunechart, chart, finegrammar, 0,
				False, False, case['mode'] == 'cfg')
	if missing:  # some label of fine grammar does not exist in coarse
		bad = sorted(finelabels)[0]
		if bad != 'ROOT' and not rename:
			raises(KeyError, finegrammar.getmapping, coarse,
					re.compile('^' + re.escape(bad) + '$'))
			result.append('missing')
			finegrammar = prepare(fine)
	msg = finegrammar.getmapping(coarse, None if rename else STRIP, **kwds)
	covered = {STRIP.sub('', a) for a in finelabels} >= coarselabels
	same('label sets are equal' in msg or 'proper superset' in msg
			or 'not a superset' in msg
			or ('not equivalent' in msg and not msg.strip('} ').endswith(':')),
			True, 'message %r', msg)
	if covered:
		same('label sets are equal' in msg, True, 'message %r', msg)
	if not chart:
		return result
	finecfg = case['mode'] == 'cfg'
	whitelist, _ = coarsetofine.prunechart(chart, finegrammar, 0,
			False, False, finecfg)
	finechart, _ = (pcfg if finecfg else plcfrs).parse(
			sent, finegrammar, whitelist=whitelist)
	reach = forest.reachable()
	ref = Forest(fine, sent, allowed=allowance(reach, fine, None))
	same(bool(finechart), ref.parsed(), 'parse with fine grammar')
	if ref.recognized:
		got = {k for k, v in readchart(finechart, len(sent)).items() if v[1]}
		want = {(names[a] if rename else a, b) for a, b in ref.edges}
		same(got, want, 'items')
	return result
