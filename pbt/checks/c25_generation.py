"""Generating sentences from a grammar."""
import contextlib
import gzip
import heapq
import io
import math
import os
import random
import shutil
import sys
import tempfile
from collections import Counter
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import gen
from discodop.grammar import writegrammar

NEED = ('bit', )
ASSUMPTIONS = ['labels and words do not contain whitespace']


@st.composite
def grammars(draw, maxfanout=3, start='ROOT'):
	"""Acyclic binarized grammar, with relative frequencies as fractions.

	Returns list of (rule, yf), count)."""
	words = ['a', 'b', 'c', 'é', "don't"]
	npos = draw(st.integers(1, 3))
	labels = []  # (label, fanout), from bottom to top
	rules = []
	used = set()
	for n in range(npos):
		label = 'T%d' % n
		labels.append((label, 1))
		for w in sorted(draw(st.sets(st.sampled_from(words), min_size=1,
				max_size=3))):
			rules.append((((label, 'Epsilon'), (w, )),
					draw(st.integers(1, 5))))
	nphr = draw(st.integers(0, 3))
	for n in range(nphr + 1):
		top = n == nphr
		fan = None
		label = start if top else 'N%d' % n
		for _ in range(draw(st.integers(1, 3))):
			binary = draw(st.integers(0, 3)) > 0
			b = draw(st.sampled_from(labels))
			c = draw(st.sampled_from(labels)) if binary else None
			target = 1 if top else fan
			if binary:
				seq = draw(st.permutations([0] * b[1] + [1] * c[1]))
				if seq[0] == 1:  # monotone rules only
					seq, b, c = [1 - m for m in seq], c, b
				# adjacent components of same nonterminal must be separated
				cuts = {m for m in range(1, len(seq)) if seq[m] == seq[m - 1]}
				free = [m for m in range(1, len(seq)) if m not in cuts]
				if target is None:
					extra = draw(st.sets(st.sampled_from(free))) if free else ()
				else:
					need = target - 1 - len(cuts)
					if need < 0 or need > len(free):
						continue
					extra = draw(st.permutations(free))[:need]
				cuts = sorted(cuts | set(extra))
				yf = tuple(tuple(seq[x:y]) for x, y in zip([0] + cuts,
						cuts + [len(seq)]))
				rule = ((label, b[0], c[0]), yf)
			else:
				yf = tuple((0, ) for _ in range(b[1]))
				rule = ((label, b[0]), yf)
				if target not in (None, len(yf)):
					continue
			if len(yf) > maxfanout or rule in used:
				continue
			used.add(rule)
			fan = len(yf)
			rules.append((rule, draw(st.integers(1, 5))))
		if fan == 1 and draw(st.integers(0, 3)) == 0:  # also words
			rules.append((((label, 'Epsilon'), (draw(st.sampled_from(words)), )),
					draw(st.integers(1, 5))))
		if fan is None:
			if top:
				one = [a for a in labels if a[1] == 1]
				rules.append((((label, draw(st.sampled_from(one))[0]),
						((0, ), )), 1))
		else:
			labels.append((label, fan))
	return rules


def normalize(rules):
	sums = Counter()
	for (r, _), w in rules:
		sums[r[0]] += w
	return [(a, w / sums[a[0][0]]) for a, w in rules]


def derivations(rules, label, limit=400):
	"""Reference: all (prob, components) of a nonterminal."""
	memo = {}

	def visit(x):
		if x not in memo:
			result = []
			for (r, yf), p in rules:
				if r[0] != x:
					continue
				elif r[1] == 'Epsilon':
					result.append((p, ((yf[0], ), )))
				elif len(r) == 2:
					result.extend((p * q, comp) for q, comp in visit(r[1]))
				else:
					for q1, c1 in visit(r[1]):
						for q2, c2 in visit(r[2]):
							pos = [iter(c1), iter(c2)]
							result.append((p * q1 * q2, tuple(
									sum((next(pos[m]) for m in arg), ())
									for arg in yf)))
				if len(result) > limit:
					raise OverflowError
			memo[x] = result
		return memo[x]
	return visit(label)


@prop(st.tuples(grammars(), st.integers(0, 1 << 30), st.sampled_from(
		[0.75, 1.0, 0.5])), quick=250,
		rule='several sentences, at least one discontinuous rule')
def distribution(arg):
	"""Generated sentences follow the distribution of the grammar; probabilities
	are those of a derivation of the sentence."""
	rules, seed, discount = arg
	rules = normalize(rules)
	try:
		ders = derivations(rules, 'ROOT')
	except OverflowError:
		return False
	want = Counter()
	for p, comp in ders:
		want[comp] += p
	grammar = gen.splitgrammar(rules)
	random.seed(seed)
	n = 400
	got = Counter()
	for _ in range(n):
		p, sent = gen.gen(grammar, start=grammar.toid['ROOT'],
				discount=discount)
		comp = tuple(tuple(a) for a in sent)
		check(any(c == comp and abs(p - q) < 1e-6 for q, c in ders),
				'not a derivation: %s %s', p, sent)
		got[comp] += 1
	for comp, p in want.items():
		# Bernstein bound; probability of false alarm below 1e-12
		t = math.log(2e12)
		dev = math.sqrt(2 * n * p * (1 - p) * t) + t
		check(abs(got[comp] - n * p) <= dev,
				'%s was generated %d times out of %d, probability is %g',
				comp, got[comp], n, p)
	return len(want) > 2 and any(len(yf) > 1 for (_, yf), _ in rules)


@st.composite
def recursive(draw):
	"""Grammar with recursive rules; probability of at least 1/4 to stop."""
	rules = [(('ROOT', 'A'), 1)]
	for label in 'AB':
		cur = {draw(st.sampled_from([(label, 'T'), (label, 'U'),
				(label, 'T', 'U')])): 8}
		for a in draw(st.lists(st.lists(st.sampled_from('AABBTU'), min_size=1,
				max_size=2), max_size=3)):
			cur[(label, ) + tuple(a)] = draw(st.integers(1, 8))
		rules.extend(cur.items())
	sums = Counter()
	for a, b in rules:
		sums[a[0]] += b
	rules = [((a, ((0, ), ) if len(a) == 2 else ((0, 1), )), b / sums[a[0]])
			for a, b in rules]
	rules.extend([(((a, 'Epsilon'), (b, )), c) for a, b, c in (
			('T', 't', 1.0), ('U', 'u', 0.75), ('U', 'v', 0.25))])
	return draw(st.permutations(rules))


@prop(st.tuples(recursive(), st.sampled_from([0.75, 0.5, 0.25]),
		st.integers(0, 1 << 30)), quick=150, rule='repeated rules')
def repetition(arg):
	"""A rule is discounted by the number of times that it occurs above."""
	rules, discount, seed = arg
	bylhs = {}
	for n, (a, w) in enumerate(rules):
		bylhs.setdefault(a[0][0], []).append((n, a, w))
	low, rest, repeated = Counter(), 1.0, 0
	agenda = [(-1.0, 0, (), (('ROOT', ()), ))]
	cnt = 0
	while agenda and cnt < 3000:
		p, _, sent, todo = heapq.heappop(agenda)
		cnt += 1
		(label, above), todo = todo[0], todo[1:]
		weights = [w * discount ** above.count(n) for n, _, w in bylhs[label]]
		for weight, (n, a, _) in zip(weights, bylhs[label]):
			q = -p * weight / sum(weights)
			if a[0][1] == 'Epsilon':
				if todo:
					heapq.heappush(agenda, (-q, len(agenda) + cnt * 10000,
							sent + a[1], todo))
				else:
					low[sent + a[1]] += q
					rest -= q
			else:
				if n in above:
					repeated += q
				heapq.heappush(agenda, (-q, len(agenda) + cnt * 10000, sent,
						tuple((b, above + (n, )) for b in a[0][1:]) + todo))
	grammar = gen.splitgrammar(rules)
	random.seed(seed)
	n = 300
	got = Counter()
	for m in range(n):
		counts = [m % 3] * len(rules)
		got[tuple(gen.gen(grammar, start=grammar.toid['ROOT'],
				discount=discount, prodcounts=counts)[1][0])] += 1
		same(counts, [m % 3] * len(rules), 'counts after derivation')
	t = math.log(2e12)
	for sent, p in low.items():
		for p1, sign in ((min(1, p), -1), (min(1, p + max(rest, 0)), 1)):
			dev = math.sqrt(2 * n * p1 * (1 - p1) * t) + t
			check(sign * (got[sent] - n * p1) <= dev, '%s was generated %d times '
					'out of %d, probability is %g (%g in the rest)',
					sent, got[sent], n, p, rest)
	# over all sentences, by length
	for k in (1, 2, 3):
		p = sum(b for a, b in low.items() if len(a) <= k)
		x = sum(b for a, b in got.items() if len(a) <= k)
		for p1, sign in ((min(1, p), -1), (min(1, p + max(rest, 0)), 1)):
			dev = math.sqrt(2 * n * p1 * (1 - p1) * t) + t
			check(sign * (x - n * p1) <= dev, '%d sentences up to length %d '
					'out of %d, probability is %g (%g in the rest)',
					x, k, n, p, rest)
	return repeated > 0.05


@prop(st.tuples(st.integers(0, 10 ** 6), st.integers(1, 10 ** 6), st.booleans()),
		quick=300, rule='all')
def fractions(arg):
	"""Fractions and decimal weights are converted to the same number."""
	num, denom, mult = arg
	if mult:
		denom *= 10
	same(gen.parsefrac('%d/%d' % (num, denom)), num / denom, 'fraction')
	same(gen.parsefrac('%d' % num), float(num), 'integer')
	for a in ('%r', '%e', '%.3f'):
		same(gen.parsefrac(a % (num / denom)), float(a % (num / denom)),
				'decimal')
	return True


@prop(st.lists(st.tuples(st.sampled_from('AB'), st.sampled_from(['T', 'U',
		'T U', 'U T']), st.sampled_from([1, 2, 30, 0.5, 1.25])), min_size=1,
		max_size=4, unique_by=lambda x: x[:2]).flatmap(lambda x: st.tuples(
		st.just(x), st.lists(st.tuples(st.sampled_from(['a', 'b', '1', 'é']),
		st.lists(st.tuples(st.sampled_from('TU'), st.sampled_from(
		[1, 2, 30, 0.5, 1.25])), min_size=1, max_size=2,
		unique_by=lambda x: x[0])), min_size=1, max_size=3,
		unique_by=lambda x: x[0]), st.booleans())), quick=400,
		rule='frequencies, or mixed weights')
def bitparweights(arg):
	"""Integer weights are turned into relative frequencies, others are kept."""
	rules, lexicon, isint = arg
	if isint:
		rules = [(a, b, int(c + 1)) for a, b, c in rules]
		lexicon = [(a, [(b, int(c + 1)) for b, c in tags])
				for a, tags in lexicon]
	want = [(((a, ) + tuple(b.split()), ((0, 1), ) if ' ' in b else ((0, ), )), c)
			for a, b, c in rules] + [(((b, 'Epsilon'), (a, )), c)
			for a, tags in lexicon for b, c in tags]
	integral = all(c == int(c) for _, c in want)
	if integral:
		want = normalize(want)
	got = gen.read_bitpar_grammar(['%s %s\t%s\n' % (c, a, b)
			for a, b, c in rules], ['%s\t%s\n' % (a, '\t'.join('%s %s' % b
			for b in tags)) for a, tags in lexicon])
	same(got, want, 'grammar')
	return integral or any(c == int(c) for _, c in want)


@prop(st.tuples(st.lists(st.tuples(st.integers(1, 9), st.integers(0, 6)),
		min_size=1, max_size=5), st.sampled_from([1.0, 0.75, 0.25]),
		st.integers(0, 1 << 30)), quick=300,
		rule='counts make a difference')
def discounts(arg):
	"""Rules are chosen proportional to weight, discounted by earlier use."""
	items, discount, seed = arg
	rules = [gen.LexicalRule(1, 0, 0, 'w%d' % n, w / 10, n)
			for n, (w, _) in enumerate(items)]
	counts = [c for _, c in items]
	weights = [w / 10 * discount ** c for w, c in items]
	random.seed(seed)
	n = 500
	got = Counter(gen.chooserule(rules, discount, counts[:]).no
			for _ in range(n))
	for k, w in enumerate(weights):
		p = w / sum(weights)
		t = math.log(2e12)
		dev = math.sqrt(2 * n * p * (1 - p) * t) + t
		check(abs(got[k] - n * p) <= dev, 'rule %d chosen %d times; p=%g',
				k, got[k], p)
	return discount != 1 and len(set(counts)) > 1


@prop(st.tuples(grammars(), st.booleans()), quick=1500,
		rule='discontinuous rule')
def tables(arg):
	"""Lookup tables represent exactly the rules of the grammar."""
	rules, norm = arg
	if norm:
		rules = normalize(rules)
	g = gen.splitgrammar(rules)
	same(g.numrules, len(rules), 'number of rules')
	labels = {x for (r, _), _ in rules for x in r}
	same(set(g.toid) | {'Epsilon', 'ROOT'}, labels | {'Epsilon', 'ROOT'},
			'labels')
	for x in g.toid:
		same(g.tolabel[g.toid[x]], x, 'label')

	def back(r):
		nts = tuple(g.tolabel[x] for x in (r.lhs, r.rhs1, r.rhs2) if x)
		yf = gen.arraytoyf(r.args, r.lengths)
		same(rules[r.no][0], (nts, yf), 'rule number')
		return (nts, yf), round(r.prob, 6)
	want = {a: round(w, 6) for a, w in rules}
	lex = {a: w for a, w in want.items() if a[0][1] == 'Epsilon'}
	phr = {a: w for a, w in want.items() if a[0][1] != 'Epsilon'}
	for name, idx, size in (('bylhs', 0, None), ('unary', 1, 2),
			('lbinary', 1, 3), ('rbinary', 2, 3)):
		table = getattr(g, name)
		seen = {}
		for n, items in enumerate(table):
			for r in items:
				a, w = back(r)
				same(g.toid[a[0][idx]], n, 'index of rule in %s', name)
				check(a not in seen, 'duplicate rule in %s', name)
				seen[a] = w
		same(seen, {a: w for a, w in phr.items()
				if size is None or len(a[0]) == size}, 'rules in %s', name)
	got1 = {((g.tolabel[r.lhs], 'Epsilon'), (r.word, )): round(r.prob, 6)
			for rr in g.lexicalbyword.values() for r in rr}
	got2 = {((g.tolabel[r.lhs], 'Epsilon'), (r.word, )): round(r.prob, 6)
			for rr in g.lexicalbylhs.values() for r in rr}
	same(got1, lex, 'lexical rules by word')
	same(got2, lex, 'lexical rules by lhs')
	for w, rr in g.lexicalbyword.items():
		check(all(r.word == w for r in rr), 'index of lexical rule')
	for x, rr in g.lexicalbylhs.items():
		check(all(r.lhs == x for r in rr), 'index of lexical rule')
	for (r, yf), _ in rules:
		same(g.fanout[g.toid[r[0]]], len(yf), 'fanout of %s', r[0])
	return any(len(yf) > 1 for (_, yf), _ in rules)


@st.composite
def largerules(draw):
	"""A rule with many variables per argument, many arguments; with two
	right-hand side symbols that have one component per word."""
	k = draw(st.one_of(st.integers(9, 16), st.integers(1, 16)))
	m = draw(st.integers(max(1, k - 5), min(k, 16)))
	seq = []
	ks, ms = k, m
	while ks or ms:
		if seq and ks and ms and draw(st.integers(0, 14)) > 0:
			x = 1 - seq[-1]
		else:
			x = 0 if not seq else draw(st.sampled_from(
					[a for a, b in ((0, ks), (1, ms)) if b]))
		seq.append(x)
		ks, ms = ks - (x == 0), ms - (x == 1)
	cuts = {n for n in range(1, len(seq)) if seq[n] == seq[n - 1]}
	free = [n for n in range(1, len(seq)) if n not in cuts]
	cuts |= draw(st.sets(st.sampled_from(free), max_size=draw(
			st.sampled_from([0, 1, 3, 12])))) if free else set()
	cuts = sorted(cuts)
	return k, m, tuple(tuple(seq[x:y]) for x, y in zip([0] + cuts,
			cuts + [len(seq)]))


@prop(largerules(), quick=400, rule='more than 8 arguments or 16 variables')
def limits(arg):
	"""Rules with up to 16 arguments and up to 32 variables."""
	k, m, yf = arg
	if len(yf) > 16:
		return ()
	rules = [((('ROOT', 'A%d' % k, 'B%d' % m), yf), 1.0)]
	for label, n in (('A', k), ('B', m)):
		for i in range(1, n + 1):
			rules.append((((label.lower() + str(i), 'Epsilon'),
					('%s%d' % (label, i), )), 1.0))
			if i > 1:
				rules.append((((label + str(i), label + str(i - 1),
						label.lower() + str(i)), ((0, ), ) * (i - 1)
						+ ((1, ), )), 1.0))
		rules.append((((label + '1', label.lower() + '1'), ((0, ), )), 1.0))
	g = gen.splitgrammar(rules)
	(rule, ), = [g.bylhs[g.toid['ROOT']]]
	same(gen.arraytoyf(rule.args, rule.lengths), yf, 'yield function')
	p, got = gen.gen(g, start=g.toid['ROOT'])
	pos = [iter(['A%d' % i for i in range(1, k + 1)]),
			iter(['B%d' % i for i in range(1, m + 1)])]
	same(got, [[next(pos[a]) for a in part] for part in yf], 'sentence')
	check(abs(p - 1) < 1e-6, 'probability')
	r, lex = writegrammar(rules)
	got = gen.read_lcfrs_grammar(r.splitlines(True), lex.splitlines(True))
	same(dict(got), dict(rules), 'grammar from text files')
	return ([] + ['args'] * (len(yf) > 8)
			+ ['vars'] * (max(map(len, yf)) > 16))


def files(rules, bitpar, compress):
	r, lex = writegrammar(rules, bitpar=bitpar)
	tmp = tempfile.mkdtemp(prefix='gen-', dir='.')
	names = []
	for name, data in (('rules', r), ('lex', lex)):
		name = os.path.join(tmp, name + ('.gz' if compress else ''))
		with (gzip.open if compress else open)(name, 'wb') as out:
			out.write(data.encode('utf8'))
		names.append(name)
	return tmp, names


@prop(st.tuples(grammars(), grammars(maxfanout=1), st.booleans(),
		st.booleans()), quick=500, rule='bitpar, or discontinuous rule')
def textfiles(arg):
	"""Grammars read from text files have the rules that were written."""
	disc, cont, bitpar, norm = arg
	rules = cont if bitpar else disc
	if norm:
		rules = normalize(rules)
	r, lex = writegrammar(rules, bitpar=bitpar)
	if bitpar:
		got = gen.read_bitpar_grammar(r.splitlines(True), lex.splitlines(True))
		if not norm or all(float(w) == int(w) for _, w in rules):
			rules = normalize(rules)
	else:
		got = gen.read_lcfrs_grammar(r.splitlines(True), lex.splitlines(True))
	same({a: round(w, 4) for a, w in got}, {a: round(w, 4) for a, w in rules},
			'grammar')
	same(len(got), len(rules), 'number of rules')
	if bitpar:  # frequencies are only normalized when all are integers
		for rweight, lweight in ((1, 0.5), (0.5, 1), (0.25, 1.5)):
			frac = [(a, b * (lweight if a[0][1] == 'Epsilon' else rweight))
					for a, b in cont]
			if all(b == int(b) for _, b in frac):
				continue
			r1 = ['%r\t%s\n' % (b, '\t'.join(a[0])) for a, b in frac
					if a[0][1] != 'Epsilon']
			l1 = ['%s\t%s %r\n' % (a[1][0], a[0][0], b) for a, b in frac
					if a[0][1] == 'Epsilon']
			got = gen.read_bitpar_grammar(r1, l1)
			same(dict(got), dict(frac), 'weights that are not frequencies')
	frac = [a.rsplit('\t', 1)[0] + '\t1/4\n' for a in r.splitlines(True)]
	if not bitpar:
		got = gen.read_lcfrs_grammar(frac, lex.splitlines(True))
		check(all(w == 0.25 for a, w in got if a[0][1] != 'Epsilon'),
				'fractional weights')
	return bitpar or any(len(yf) > 1 for (_, yf), _ in rules)


@prop(st.tuples(grammars(maxfanout=1, start='ROOT'), grammars(start='S'),
		st.booleans(), st.booleans(), st.booleans(), st.integers(0, 1 << 30)),
		quick=120, rule='at least two different sentences')
def command(arg):
	"""The command prints 20 sentences from the grammar."""
	cont, disc, bitpar, compress, verbose, seed = arg
	rules = cont if bitpar else disc
	start = 'ROOT' if bitpar else 'S'
	if not bitpar:
		rules = normalize(rules)
	try:
		ders = derivations(normalize(rules), start)
	except OverflowError:
		return False
	tmp, names = files(rules, bitpar, compress)
	random.seed(seed)
	old, sys.argv = sys.argv, (['discodop', 'gen']
			+ (['--verbose'] if verbose else [])
			+ ([] if bitpar else ['-s', start]) + names)
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out):
			gen.main()
	finally:
		sys.argv = old
		shutil.rmtree(tmp)
	lines = [a for a in out.getvalue().splitlines()
			if a.startswith('[') and ' + ' not in a]
	same(len(lines), 20, 'number of sentences:\n%s', out.getvalue())
	for a in lines:
		p, sent = a.split('] ')
		check(any(tuple(sent.split()) == c[0]
				and abs(float(p[1:]) - q) <= 1e-4 * q for q, c in ders),
				'not in language of grammar: %s', a)
	return len(set(lines)) > 1
