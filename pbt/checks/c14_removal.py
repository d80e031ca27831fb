"""Removal of terminals and empty nodes."""
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop.tree import Tree, ParentedTree
from discodop.treetransforms import removeterminals, removeemptynodes
import gens

NEED = ('bit', )
ASSUMPTIONS = ['every terminal has a preterminal']


@prop(st.tuples(gens.treesents(maxleaves=9, shuffle=True, root='ROOT'),
		st.lists(st.booleans(), min_size=9, max_size=9),
		st.sampled_from([0] * 9 + [4, 60]), st.integers(0, 9)), quick=3000,
		rule='some but not all terminals removed')
def remove_terminals(arg):
	"""Exactly the selected terminals and ancestors that became empty are
	removed; the rest of the tree is unaffected; tokens are renumbered."""
	(spec, sent), drop, pad, at = arg
	spec, sent = gens.padded(spec, sent, at, pad)
	drop = (drop * 8)[:len(sent)]
	tree = gens.mk(spec, ParentedTree)
	marked = ['%s/%d' % a for a in zip(sent, range(len(sent)))]
	newsent = marked[:]
	tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
	calls = []

	def func(word, node):
		idx = marked.index(word)
		same(node.label, tags[idx], 'node does not belong to word')
		calls.append(idx)
		return drop[idx]
	removeterminals(tree, newsent, func)
	keep = [a for a in range(len(sent)) if not drop[a]]
	same(sorted(calls), list(range(len(sent))), 'every terminal is considered')
	same(gens.unmk(tree), gens.removed(spec, keep), 'tree')
	same(newsent, [marked[a] for a in keep], 'sentence')
	gens.links(tree)
	return ['some'] + gens.classify(spec) if 0 < len(keep) < len(
			sent) else []


@prop(gens.treesents(maxleaves=9, shuffle=True, root='ROOT',
		pos=('NN', 'VB', '-NONE-', 'NONE', '-NONE--'), word=st.sampled_from(
			['a', 'b', None, '', '-NONE-', '*T*-1', '0'])), quick=1500,
		rule='some empty nodes')
def remove_empty(arg):
	"""Empty terminals (no word, or tagged as trace) are removed."""
	spec, sent = arg
	tree, newsent = gens.mk(spec, ParentedTree), sent[:]
	removeemptynodes(tree, newsent)
	tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
	keep = [n for n, a in enumerate(sent) if a not in (None, '')
			and tags[n] != '-NONE-']
	same(gens.unmk(tree), gens.removed(spec, keep), 'tree')
	same(newsent, [sent[a] for a in keep], 'sentence')
	gens.links(tree)
	removeemptynodes(tree, newsent)
	same(gens.unmk(tree), gens.removed(spec, keep), 'idempotent')
	return 0 < len(keep) < len(sent)


@prop(st.tuples(gens.treesents(maxleaves=9, shuffle=True, root='ROOT',
		pos=('NN', 'VB', '-NONE-', 'NONE', '-NONE--'), word=st.sampled_from(
			['a', 'b', None, '', '0', '...'])),
		st.sets(st.sampled_from(['a', 'b', None, '', '0', '...'])),
		st.sets(st.sampled_from(['NN', 'VB', '-NONE-', 'NONE']))),
		quick=1500, rule='removed some; empty nodes remain')
def selected_words(arg):
	"""Terminals can be selected by word and label; whatever is not selected
	is kept, including empty nodes."""
	(spec, sent), words, labels = arg
	tree, newsent = gens.mk(spec, ParentedTree), sent[:]
	tags = {a[1][0]: a[0] for a in gens.nodesof(spec) if gens.ispre(a)}
	removeterminals(tree, newsent,
			lambda word, node: word in words or node.label in labels)
	keep = [n for n, a in enumerate(sent) if a not in words
			and tags[n] not in labels]
	same(gens.unmk(tree), gens.removed(spec, keep), 'tree')
	same(newsent, [sent[a] for a in keep], 'sentence')
	gens.links(tree)
	return len(keep) < len(sent) and any(not a for a in newsent)
