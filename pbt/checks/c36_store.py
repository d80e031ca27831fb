"""The indexed treebank and its vocabulary survive storage and extension."""
import os
import pickle
import shutil
import tempfile
from hypothesis import strategies as st
import gens
from core import prop, check, same
from fragref import Table

NEED = ('bit', 'containers', '_fragments')
WORDS = ('a', 'b', '2:2', '\xe9=', '\u732b', 'epsilon')


@st.composite
def histories(draw):
	kw = dict(maxleaves=6, maxarity=3, word=st.sampled_from(WORDS),
			phrasal=('S', 'A', '\xe9'), pos=('x', 'y'))
	banks = draw(st.lists(st.lists(gens.treesents(
			disc=draw(st.booleans()), **kw), min_size=1, max_size=4),
			min_size=2, max_size=4))
	big = draw(st.integers(0, 9)) == 9
	if big:
		banks[draw(st.integers(0, len(banks) - 1))].append(draw(
				gens.treesents(minleaves=40, maxleaves=120, disc=False,
				word=st.sampled_from(('a', 'b')), phrasal=('S', 'A'),
				pos=('x', 'y'))))
	ops = draw(st.lists(st.sampled_from(('add', 'add', 'pickle', 'file', 'mut',
			'mut', 'vocabfile', 'vocabpickle', 'fixed', 'fixedpickle')),
			min_size=1, max_size=9))
	return banks, ops


def prepared(items):
	from discodop.tree import ParentedTree
	from discodop.treetransforms import binarize
	return [(binarize(gens.mk(gens.canonspec(spec), ParentedTree), dot=True),
			sent) for spec, sent in items]


def subtree(tab, n, disc=True):
	if tab.kids[n]:
		return '(%s %s)' % (tab.label[n], ' '.join(
				subtree(tab, a, disc) for a in tab.kids[n]))
	return '(%s %s%s)' % (tab.label[n], '%d=' % tab.leaves[n][0]
			if disc else '', tab.word[n])


def verify(trees, vocab, tabs, sents, msg):
	"""Compare with reference."""
	same((len(trees), trees.len, trees.numnodes, trees.numwords,
			trees.maxnodes), (len(tabs), len(tabs), sum(map(len, tabs)),
			sum(map(len, sents)), max(map(len, tabs))), 'sizes %s', msg)
	for n, (tab, sent) in enumerate(zip(tabs, sents)):
		same(trees.extract(n, vocab, disc=True), subtree(tab, 0),
				'tree %d %s', n, msg)
		same(trees.extract(n, vocab, disc=False), subtree(tab, 0, False),
				'tree %d %s', n, msg)
		same(trees.extractsent(n, vocab), sent, 'sentence %d %s', n, msg)
		same(sorted(trees.extract(n, vocab, disc=True, node=m)
				for m in range(len(tab))), sorted(subtree(tab, m)
				for m in range(len(tab))), 'subtrees of %d %s', n, msg)
	for n in (-1, len(tabs)):
		try:
			trees.extract(n, vocab)
		except IndexError:
			pass
		else:
			check(False, 'tree %d extracted from %d trees', n, len(tabs))
	want = {}
	for n, tab in enumerate(tabs):
		for p in tab.prod:
			want.setdefault(p, set()).add(n)
	same(sorted(sorted(a) for a in trees.prodindex if a),
			sorted(sorted(a) for a in want.values()), 'index %s', msg)


@prop(histories(), 500, rule='trees are added after storing or loading')
def history(arg):
	"""Trees, sentences, index are the same after saving & loading, and
	adding trees."""
	from discodop._fragments import getctrees
	from discodop.containers import Ctrees, Vocabulary, FixedVocabulary
	banks, ops = arg
	tmp = tempfile.mkdtemp()
	try:
		items = prepared(banks[0])
		x = getctrees(items)
		trees, vocab = x['trees1'], x['vocab']
		tabs = [Table(gens.unmk(a), b) for a, b in items]
		sents = [b for _, b in items]
		verify(trees, vocab, tabs, sents, 'initially')
		mutable, added, stored, m = True, False, False, 1
		fname = os.path.join(tmp, 'x')
		for n, op in enumerate(ops):
			msg = 'after %r' % ops[:n + 1]
			if op == 'add':
				if not mutable or m == len(banks):
					continue
				items = prepared(banks[m])
				trees.addtrees(items, vocab)
				tabs = tabs + [Table(gens.unmk(a), b) for a, b in items]
				sents = sents + [b for _, b in items]
				m += 1
				added |= stored
			elif op == 'pickle':
				x = pickle.loads(pickle.dumps(trees))
				verify(x, vocab, tabs, sents, msg)
				same(x.__getstate__(), trees.__getstate__(), 'pickled')
			elif op == 'file':
				trees.tofile(fname)
				x = getctrees(items)
				x['trees1'].indextrees(x['vocab'], freeze=True)
				verify(x['trees1'], x['vocab'], [Table(gens.unmk(a), b)
						for a, b in items], [b for _, b in items], 'frozen')
				x['trees1'].tofile(fname + '3')
				with Ctrees.fromfile(fname + '3') as y:
					verify(y, x['vocab'], [Table(gens.unmk(a), b)
							for a, b in items], [b for _, b in items], 'frozen')
				with Ctrees.fromfile(fname) as x:
					verify(x, vocab, tabs, sents, msg)
					y = pickle.loads(pickle.dumps(trees))
				verify(y, vocab, tabs, sents, msg + ' (pickled)')
			elif op == 'mut':
				trees.tofile(fname)
				trees = Ctrees.fromfilemut(fname)
				os.unlink(fname)
				stored = True
			else:
				if op == 'vocabpickle':
					new = pickle.loads(pickle.dumps(vocab))
				else:
					vocab.tofile(fname)
					new = (Vocabulary if op == 'vocabfile'
							else FixedVocabulary).fromfile(fname)
				if op == 'fixedpickle':
					new.makeindex()
					new = pickle.loads(pickle.dumps(new))
				if op == 'fixed':
					verify(trees, new, tabs, sents, msg)
					new.makeindex()
				same(new.labels, vocab.labels, 'labels %s', msg)
				same(new.prods, vocab.prods, 'prods %s', msg)
				same(repr(new), repr(vocab), 'repr')
				same([new.prodrepr(a) for a in range(len(new.prods))],
						[vocab.prodrepr(a) for a in range(len(new.prods))],
						'productions')
				verify(trees, new, tabs, sents, msg)
				if op in ('vocabfile', 'vocabpickle'):
					vocab = new
					stored = True
				elif op == 'fixed':
					x = getctrees(prepared(banks[-1]), vocab=new,
							index=False)['trees1']
					ref = [Table(gens.unmk(a), b)
							for a, b in prepared(banks[-1])]
					seen = {p for tab in tabs for p in tab.prod}
					for k, tab in enumerate(ref):
						if set(tab.prod) <= seen:
							same(x.extract(k, new), subtree(tab, 0),
									'tree with known productions %s', msg)
						else:
							check('<UNKNOWN>' in x.extract(k, new),
									'unknown production')
					new.close()
			verify(trees, vocab, tabs, sents, msg)
	finally:
		shutil.rmtree(tmp)
	return ['yes'] if added else []


@prop(st.just((['S', [['x', [0]]]], ['Epsilon'])), 1, thorough=1, rule='all')
def epsilonword(arg):
	"""A word which is equal to the marker for terminals in productions."""
	from discodop._fragments import getctrees
	items = prepared([arg])
	x = getctrees(items)
	verify(x['trees1'], x['vocab'], [Table(gens.unmk(items[0][0]), arg[1])],
			[arg[1]], '')
	return ['yes']
