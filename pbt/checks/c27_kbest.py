"""C27: k-best derivations are the k most probable ones, in order."""
import math
from hypothesis import strategies as st
import lcfrs
from core import prop, check, same
from lcfrs import Forest, probof, prepare, close

NEED = ('bit', 'containers', 'pcfg', 'plcfrs', 'kbest')
LIMIT = 3000


def dense(disc):
	"""Highly ambiguous grammars."""
	return lcfrs.grammars(disc=disc, maxleaves=6, words=('a', 'b'),
			phrasal=('A', 'B'), extra=8, acyclic=True)


@prop(st.tuples(st.booleans().flatmap(dense), st.integers(1, 40)), 700,
		rule='at least two derivations')
def exact(arg):
	"""The list is exactly the k best derivations, without duplicates."""
	from discodop import pcfg, plcfrs
	from discodop.kbest import lazykbest
	(g, sents), k = arg
	if not any(a[0] == 'ROOT' for a in g['rules']):
		return ()
	grammar = prepare(g)
	result = []
	for sent in sents:
		ref = Forest(g, sent)
		if not ref.parsed():
			continue
		total = ref.inside(counts=True)[ref.root]
		if total > LIMIT:
			result.append('too many')
			continue
		derivs = {s: p for p, s, _ in ref.derivations()}
		same(len(derivs), total, 'internal')
		probs = sorted(derivs.values(), reverse=True)
		for parser in (pcfg, plcfrs) if lcfrs.iscfg(g) else (plcfrs, ):
			chart, _ = parser.parse(sent, grammar)
			for num in (k, total, total + 10):
				got = lazykbest(chart, num)
				same(len(got), min(num, total), 'number of derivations; %s',
						parser.__name__)
				same(len({a for a, _ in got}), len(got), 'duplicates')
				for (s, p), want in zip(got, probs):
					check(s in derivs, 'not a derivation: %s', s)
					check(close(derivs[s], math.exp(-p), 1e-9),
							'probability of %s: %g, expected %g', s,
							math.exp(-p), derivs[s])
					check(close(derivs[s], want, 1e-9),
							'probability at this rank: %g, expected %g; '
							'list: %r', math.exp(-p), want, got)
			same(lazykbest(chart, k, derivs=False), None, 'derivs=False')
		if total > 1:
			result.append('disc' if not lcfrs.iscfg(g) else 'cfg')
			if total > 40:
				result.append('>40')
	return result


@prop(st.tuples(st.booleans().flatmap(lambda disc: lcfrs.grammars(disc=disc)),
		st.integers(1, 100)), 500,
		rule='at least two derivations, and unary cycles')
def cyclic(arg):
	"""With unary cycles (infinitely many derivations) the list is ordered,
	and has valid derivations."""
	from discodop import pcfg, plcfrs
	from discodop.kbest import lazykbest
	from discodop.tree import Tree
	(g, sents), k = arg
	grammar = prepare(g)
	result = []
	for sent in sents:
		ref = Forest(g, sent)
		if not ref.parsed():
			continue
		best = ref.viterbi()[ref.root]
		for parser in (pcfg, plcfrs) if lcfrs.iscfg(g) else (plcfrs, ):
			chart, _ = parser.parse(sent, grammar)
			got = lazykbest(chart, k)
			check(1 <= len(got) <= k, 'number of derivations')
			same(len({a for a, _ in got}), len(got), 'duplicates')
			check(close(math.exp(-got[0][1]), best, 1e-9), 'best derivation')
			for (_, p1), (_, p2) in zip(got, got[1:]):
				check(p1 <= p2 + 1e-9, 'not in order: %r', got)
			for s, p in got:
				check(close(probof(Tree(s), ref), math.exp(-p), 1e-9),
						'probability of %s', s)
			if ref.order() is not None:
				same(len(got), min(k, ref.inside(counts=True)[ref.root]))
			elif len(got) > 1:
				result.append('cyclic')
	return result


@prop(st.booleans().flatmap(dense), 150, rule='no complete derivation')
def noparse(arg):
	"""Without a parse, an error is raised."""
	from discodop import plcfrs
	from discodop.kbest import lazykbest
	g, sents = arg
	if not any(a[0] == 'ROOT' for a in g['rules']):
		return ()
	grammar = prepare(g)
	for sent in sents:
		sent = sent[::-1] + ['b', 'a']
		ref = Forest(g, sent)
		if ref.parsed():
			continue
		chart, _ = plcfrs.parse(sent, grammar)
		try:
			lazykbest(chart, 5)
		except ValueError:
			return True
		check(False, 'no error')
	return ()
