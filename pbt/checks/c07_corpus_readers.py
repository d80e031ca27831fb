"""Corpus readers: every view of a corpus agrees, over any number of files."""
import gzip
import io
import os
import shutil
import subprocess
import tempfile
from contextlib import contextmanager, redirect_stderr, redirect_stdout
from xml.sax.saxutils import quoteattr, escape as xmlescape
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import treebank
from discodop.tree import Tree, ParentedTree
from discodop.punctuation import applypunct
from discodop.treetransforms import removeemptynodes
from discodop.treebank import READERS, writetree, numbase
import gens

NEED = ('bit', )
ASSUMPTIONS = ['sentence identifiers are unique across the files of a corpus',
		'file names differ in their numeric or textual components']

word = st.sampled_from(gens.WORDS + ('(', ')', '.', 'é', '1', '-LRB-'))
EXT = dict(export='.export', bracket='.mrg', discbracket='.dbr',
		alpino='.xml', tiger='.xml', ftb='.xml', alpinocompact='.data.dz')
# files of the French treebank that come before any other
FTBORDER = ('flmf7aa1ep.cat.xml', 'flmf7aa2ep.cat.xml', 'flmf7ab2ep.xml',
		'flmf7ae1ep.cat.xml', 'flmf7af2ep.cat.xml', 'flmf7ag1exp.cat.xml')


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='corpus-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


def tigerxml(key, spec, sent):
	nodes = gens.nodesof(spec)
	name = {id(a): 's%s_%s' % (key, 'VROOT' if n == 0 else a[1][0] + 1
			if gens.ispre(a) else 500 + n) for n, a in enumerate(nodes)}
	text = ['<s id="s%s"><graph root="s%s_VROOT"><terminals>' % (key, key)]
	for a in sorted((a for a in nodes if gens.ispre(a)),
				key=lambda a: a[1][0]):
		text.append('<t id="%s" word=%s pos="%s" lemma="--" morph="--" />' % (
				name[id(a)], quoteattr(sent[a[1][0]]), a[0]))
	text.append('</terminals><nonterminals>')
	for a in nodes:
		if not gens.ispre(a):
			text.append('<nt id="%s" cat="%s">' % (name[id(a)], a[0]))
			text.extend('<edge label="--" idref="%s" />' % name[id(b)]
					for b in a[1])
			text.append('</nt>')
	text.append('</nonterminals></graph></s>\n')
	return ''.join(text)


def ftbxml(key, spec, sent):
	def visit(a, attr=''):
		if gens.ispre(a):
			return '<w cat="%s" lemma="--" ee="--" fct="">%s</w>' % (
					a[0], xmlescape(sent[a[1][0]]))
		return '<%s fct=""%s>%s</%s>' % (a[0], attr,
				''.join(visit(b) for b in a[1]), a[0])
	return visit(spec, ' nb="%s"' % key) + '\n'


def render(fmt, items):
	"""Text of a single file."""
	if fmt == 'tiger':
		return ('<?xml version="1.0" encoding="utf-8"?>\n<corpus><body>\n'
				+ ''.join(tigerxml(*a) for a in items) + '</body></corpus>\n')
	elif fmt == 'ftb':
		return ('<?xml version="1.0" encoding="utf-8"?>\n<text>\n'
				+ ''.join(ftbxml(*a) for a in items) + '</text>\n')
	elif fmt == 'alpinocompact':
		return ''.join('<?xml version="1.0" encoding="%s"?>%s' % (
				('UTF-8', 'utf-8', 'UTF8')[n % 3], '\r\n' if n % 2 else '\n')
				+ writetree(gens.mk(spec, ParentedTree), sent, key, 'alpino'
				).replace('<sentence>', '<sentence sentid="%s">' % key
				).replace('\n', '\r\n' if n % 2 else '\n')
				for n, (key, spec, sent) in enumerate(items))
	return ''.join(writetree(gens.mk(spec, ParentedTree), sent, key, fmt)
			for key, spec, sent in items)


def write(path, data, comp):
	data = data.encode('utf8')
	if comp == '.gz':
		with gzip.open(path, 'wb') as out:
			out.write(data)
	elif comp == '.zst':
		subprocess.run(['zstd', '-q', '-o', path], input=data, check=True)
	else:
		with open(path, 'wb') as out:
			out.write(data)


@st.composite
def filenames(draw, fmt, ext, num):
	"""Names of ``num`` files, in the order in which they are to be read."""
	integers = st.integers(0, 300)
	kind = draw(st.sampled_from(['wsj', 'wsj', 'dotted', 'text', 'first',
			'mixed']))
	if fmt == 'ftb' and ext == '.xml' and draw(st.integers(0, 3)):
		names = draw(st.lists(st.sampled_from(FTBORDER + ('flmf3aa.xml',
				'flmf7aa3ep.cat.xml', 'flmf8.cat.xml', 'zz.xml')),
				min_size=num, max_size=num, unique=True))
		return sorted(names, key=lambda a: (FTBORDER.index(a) if a in FTBORDER
				else 9, a))
	elif kind == 'dotted':
		sep = draw(st.sampled_from('.-_, '))
		parts = draw(st.lists(st.tuples(integers, st.sampled_from('ab'),
				integers), min_size=num, max_size=num, unique=True))
		return [('s' + 3 * (sep + '%s')) % a + ext for a in sorted(parts)]
	elif kind == 'first':
		return ['%d_x%s' % (a, ext) for a in sorted(draw(st.lists(integers,
				min_size=num, max_size=num, unique=True)))]
	elif kind == 'text':
		return sorted(a + ext for a in draw(st.lists(st.sampled_from((
				'aa', 'ab', 'b', 'B', 'a10', 'a9', 'x2y')), min_size=num,
				max_size=num, unique=True)))
	elif kind == 'mixed':  # not comparable; ordered as plain strings
		return sorted(a + ext for a in draw(st.lists(st.sampled_from((
				'a-1', '1-a', '2-a', '10-a', 'b')), min_size=num,
				max_size=num, unique=True))) if num == 1 else sorted(
				a + ext for a in ('b-1', '10-a', '9-a')[:num])
	return ['wsj_%d%s' % (a, ext) for a in sorted(draw(st.lists(integers,
			min_size=num, max_size=num, unique=True)))]


@st.composite
def cases(draw):
	fmt = draw(st.sampled_from(sorted(EXT)))
	keys = draw(st.lists(st.integers(1, 12000), min_size=1, max_size=6,
			unique=True))
	if fmt not in ('alpino', 'bracket', 'discbracket'):
		style = draw(st.sampled_from(['%d', '%d', '%05d', 'x%d', '%d.a', '%d-1']))
		keys = [style % k for k in keys]
	root = dict(alpino='TOP', alpinocompact='TOP', ftb='SENT', tiger='VROOT').get(fmt, 'ROOT')
	items = [(str(k), ) + draw(gens.treesents(word=word, root=root,
			disc=fmt not in ('bracket', 'ftb'), maxleaves=5, pos=('n', 'v', 'd')
				if fmt.startswith('alpino') else gens.POS)) for k in keys]
	nfiles = draw(st.sampled_from([1, 2, 3, 2, 3]))
	cuts = sorted(draw(st.lists(st.integers(0, len(items)),
			min_size=nfiles - 1, max_size=nfiles - 1)))
	files = [items[a:b] for a, b in zip([0] + cuts, cuts + [len(items)])]
	comp = draw(st.sampled_from(['', '', '', '.gz', '.zst']
			if draw(st.integers(0, 3)) == 0 else ['', '.gz']))
	if fmt.startswith('alpino') or (fmt == 'ftb' and comp == '.zst'):
		comp = ''
	names = draw(filenames(fmt, EXT[fmt] + comp, nfiles))
	ops = draw(st.lists(st.one_of(
			st.sampled_from(['trees', 'sents', 'tagged_sents', 'blocks',
				'items']),
			st.tuples(st.integers(0, 5) | st.none(),
				st.integers(0, 7) | st.none())), min_size=3, max_size=8))
	ensureroot = draw(st.sampled_from([None, None, 'ROOT', 'VROOT', 'NEW',
			'R', 'VR']))
	return fmt, files, names, comp, ops, ensureroot


@prop(cases(), quick=1500, rule='several sentences, or several files')
def views_agree(arg):
	"""trees, sents, tagged sents, blocks and streaming items of a (multi-file,
	possibly compressed) corpus are those that were written, in order, whatever
	the order in which they are requested."""
	fmt, files, names, comp, ops, ensureroot = arg
	index = len(ops) % 2
	expected = []
	with scratch() as path:
		pattern = '%s/*%s%s' % (path, EXT[fmt], comp)
		if fmt == 'alpino':  # a directory for each
			pattern = path + '/*/*.xml'
		for name, items in zip(names, files):
			base = name[:-len(EXT[fmt] + comp)]
			if fmt == 'alpino':
				os.mkdir(path + '/' + base)
				for key, spec, sent in items:
					write('%s/%s/%s.xml' % (path, base, key), render(fmt, [
							(key, spec, sent)]), '')
			elif fmt == 'alpinocompact':
				write(path + '/' + name, render(fmt, items), '.gz')
				base = base if index else name
				write('%s/%s.index' % (path, name[:-len('.data.dz')]), '', '')
			else:
				write(os.path.join(path, name), render(fmt, items), comp)
			for key, spec, sent in items:
				expected.append((len(expected) + 1 if 'bracket' in fmt else
						's' + key if fmt == 'tiger' else
						'%s-%s' % (os.path.splitext(name)[0], key)
						if fmt == 'ftb' else '%s/%s' % (base, key)
						if fmt.startswith('alpino') else key, spec, sent))
		if fmt == 'alpino':  # order of directories is that of names
			expected.sort(key=lambda a: (a[0].split('/')[0],
					int(a[0].split('/')[1])))
		elif fmt == 'alpinocompact' and index:
			pattern = path + '/*.index'
		expected = [(a, gens.canonspec(b) if fmt != 'ftb' else b, c)
				for a, b, c in expected]
		if ensureroot is not None:
			expected = [(a, b if b[0] == ensureroot else [ensureroot, [b]], c)
					for a, b, c in expected]
		with redirect_stderr(io.StringIO()):
			reader = READERS[fmt](pattern, ensureroot=ensureroot)
		keys = [a[0] for a in expected]
		tags = [{b[1][0]: b[0] for b in gens.nodesof(a[1]) if gens.ispre(b)}
				for a in expected]
		blocks = items = None
		for op in ops + ['items', 'blocks']:
			if op == 'trees':
				got = reader.trees()
				same(list(got), keys, 'keys of trees')
				same([gens.unmk(a) for a in got.values()],
						[a[1] for a in expected], 'trees')
			elif op == 'sents':
				got = reader.sents()
				same(list(got), keys, 'keys of sents')
				same(list(got.values()), [a[2] for a in expected], 'sents')
			elif op == 'tagged_sents':
				got = reader.tagged_sents()
				same(list(got), keys, 'keys of tagged sents')
				same(list(got.values()), [[(w, t[n]) for n, w in
						enumerate(a[2])] for a, t in zip(expected, tags)],
						'tagged sents')
			elif op == 'blocks':
				blocks = reader.blocks()
				same(list(blocks), keys, 'keys of blocks')
			else:
				start, end = (None, None) if op == 'items' else op
				got = list(reader.itertrees(start, end))
				want = expected[start:end]
				same([a for a, _ in got], [a[0] for a in want],
						'keys of items %r', op)
				same([gens.unmk(a.tree) for _, a in got], [a[1] for a in want],
						'trees of items')
				same([a.sent for _, a in got], [a[2] for a in want],
						'sents of items')
				if op == 'items':
					items = got
		# blocks are the original representation of the same tree
		for key, item in items:
			same(item.block, blocks[key], 'item.block')
		data = list(blocks.values())
		if fmt in ('tiger', 'ftb'):
			data = [b'<x>' + a + b'</x>' for a in data]
		if fmt == 'alpinocompact':
			fmt = 'alpino'
		os.mkdir(path + '/blocks')
		for n, a in enumerate(data):
			with open('%s/blocks/%d%s' % (path, n, EXT[fmt]), 'wb') as out:
				out.write(a.encode('utf8') if isinstance(a, str) else a)
		again = READERS[fmt]('%s/blocks/*%s' % (path, EXT[fmt]),
				ensureroot=ensureroot)
		same([gens.unmk(a) for a in again.trees().values()],
				[a[1] for a in expected], 'trees from blocks')
		same(list(again.sents().values()), [a[2] for a in expected],
				'sents from blocks')
	result = [fmt] if len(expected) > 1 else []
	if sum(1 for a in files if a) > 1 and fmt != 'alpino':
		result.append('multifile')
	if comp:
		result.append(comp)
	return result


@st.composite
def malformedexport(draw):
	keys = draw(st.lists(st.integers(1, 50).map(str), min_size=2, max_size=4,
			unique=True))
	items = [(k, ) + draw(gens.treesents(word=word, root='ROOT', maxleaves=4))
			for k in keys]
	kind = draw(st.sampled_from(['noeos', 'nobos', 'wrongeos', 'dup']))
	idx = draw(st.integers(0, len(items) - 1 - (kind != 'noeos')))
	return items, kind, idx, draw(st.booleans())


@st.composite
def transformed(draw):
	fmt = draw(st.sampled_from(['export', 'bracket', 'discbracket']))
	opts = draw(st.fixed_dictionaries(dict(
		punct=st.sampled_from([None, 'no', 'move', 'moveall', 'remove',
			'removeall', 'prune', 'root']),
		removeempty=st.booleans(),
		functions=st.sampled_from([None, 'add', 'remove', 'replace']),
		lemmas=st.sampled_from([None, None, 'add', 'replace'])
			if fmt == 'export' else st.none(),
		ensureroot=st.sampled_from([None, 'ROOT']))))
	items = []
	for n in range(draw(st.integers(1, 3))):
		spec, sent = draw(gens.treesents(root='ROOT',
				word=st.sampled_from(('a', 'b', '.', ',', '``', "'", '?')),
				disc=fmt != 'bracket', maxleaves=7, shuffle=fmt != 'bracket', pos=('N', 'V', '-NONE-')))
		if all(a[0] == '-NONE-' for a in gens.nodesof(spec) if gens.ispre(a)) \
				or all(not a.isalpha() for a in sent):
			spec, sent = ['ROOT', [['N', [0]]]], ['a']
		items.append((str(n + 1), spec, sent))
	views = draw(st.permutations(['trees', 'sents', 'tagged_sents', 'blocks',
			'items']))
	return fmt, opts, items, views


@prop(transformed(), quick=800, rule='sentences change when read')
def transformed_views(arg):
	"""When trees are transformed while reading (punctuation, empty nodes,
	functions), all views still agree with each other."""
	fmt, opts, items, views = arg
	with scratch() as path:
		fname = path + '/x' + EXT[fmt]
		write(fname, render(fmt, items), '')
		want = list(READERS[fmt](fname, **opts).itertrees())
		reader = READERS[fmt](fname, **opts)
		for view in views + views:
			if view == 'items':
				got = list(reader.itertrees())
				same([(k, str(a.tree), a.sent) for k, a in got],
						[(k, str(a.tree), a.sent) for k, a in want], view)
				continue
			got = getattr(reader, view)()
			same(list(got), [k for k, _ in want], 'keys of ' + view)
			same([str(a) for a in got.values()], [str(
					a.tree if view == 'trees' else
					a.sent if view == 'sents' else
					a.block if view == 'blocks' else
					[(w, b) for w, (_, b) in zip(a.sent, sorted(a.tree.pos()))])
					for _, a in want], view)
		# the same as transforming the trees afterwards
		plain = dict(opts, punct=None, removeempty=False, ensureroot=None)
		reader = READERS[fmt](fname, **plain)
		for (_, a), (_, b) in zip(want, reader.itertrees()):
			if opts['removeempty']:
				removeemptynodes(b.tree, b.sent)
				if fmt == 'export':
					for node in list(b.tree.postorder(lambda x: len(x) > 1)):
						node.children.sort(key=lambda x: min(x.leaves())
								if isinstance(x, Tree) else x)
			if opts['punct']:
				applypunct(opts['punct'], b.tree, b.sent)
			same((str(a.tree), a.sent), (str(b.tree), b.sent), 'transformed')
	for _, a in want:
		same(sorted(a.tree.leaves()), list(range(len(a.sent))),
				'tokens in tree and sentence')
	return [str(opts['punct'])] if [a.sent for _, a in want] != [
			c for _, _, c in items] else []


@prop(malformedexport(), quick=300, rule='all')
def malformed_export(arg):
	"""A corpus in export format with unbalanced or mismatched sentence
	markers, or duplicate identifiers (also across files), is refused."""
	items, kind, idx, split = arg
	texts = [writetree(gens.mk(spec, ParentedTree), sent, key, 'export'
			).splitlines() for key, spec, sent in items]
	if kind == 'noeos':
		del texts[idx][-1]
	elif kind == 'nobos':
		del texts[idx + 1][0]
	elif kind == 'wrongeos':
		texts[idx][-1] += '0'
	else:
		texts[idx + 1][0] = '#BOS ' + items[idx][0]
		texts[idx + 1][-1] = '#EOS ' + items[idx][0]
	with scratch() as path:
		if split and (kind != 'noeos' or idx == len(items) - 1):
			for n, a in enumerate(texts):
				with open('%s/%d.export' % (path, n), 'w') as out:
					out.write('\n'.join(a) + '\n')
		else:
			with open(path + '/a.export', 'w') as out:
				out.write('\n'.join('\n'.join(a) for a in texts) + '\n')
		reader = READERS['export'](path + '/*.export')
		raises(ValueError, reader.trees)
		raises(ValueError, lambda: list(READERS['export'](
				path + '/*.export').itertrees()))
	return [kind]


@prop(st.tuples(st.lists(st.tuples(gens.treesents(maxleaves=5, root='TOP',
		phrasal=('S', 'NP'), pos=('n', 'v'), word=word), st.booleans()),
		min_size=1, max_size=4), st.booleans(), st.randoms(
		use_true_random=False)), quick=200, rule='some malformed')
def malformed_xml(arg):
	"""Malformed XML is reported, and does not affect other sentences."""
	items, compact, rnd = arg
	want = []
	with scratch() as path:
		result = []
		for n, ((spec, sent), valid) in enumerate(items):
			text = writetree(gens.mk(spec, ParentedTree), sent, str(n),
					'alpino').replace('<sentence>',
					'<sentence sentid="%d">' % n)
			if valid:
				want.append(('%s/%d' % ('a' if compact
						else os.path.basename(path), n),
						gens.canonspec(spec), sent))
			else:
				x = rnd.randrange(text.index('<node'), text.index('<sentence'))
				text = text[:x] + rnd.choice(('<', '</x>', '&')) + text[x:]
			result.append(text)
			if not compact:
				with open('%s/%d.xml' % (path, n), 'w', encoding='utf8') as out:
					out.write(text)
		if compact:
			with gzip.open(path + '/a.data.dz', 'wb') as out:
				out.write(''.join('<?xml version="1.0" encoding="UTF-8"?>\n' + a
						for a in result).encode('utf8'))
			with open(path + '/a.index', 'w'):
				pass
		cls = (treebank.AlpinoCompactCorpusReader if compact
				else treebank.AlpinoCorpusReader)
		err = io.StringIO()
		with redirect_stderr(err):
			reader = cls(path + ('/a.index' if compact else '/*.xml'))
			trees, sents = reader.trees(), reader.sents()
		same([(a, gens.unmk(b), sents[a]) for a, b in trees.items()], want,
				'sentences')
		same('Problem with' in err.getvalue(), len(want) < len(items),
				'problem reported')
	return len(want) < len(items)


BAD = dict(functions='x', morphology='x', punct='x', lemmas='x')


@prop(st.sampled_from(sorted(READERS)), quick=14, thorough=14, rule='all')
def bad_options(arg):
	"""Unknown option values and patterns that match no file are refused."""
	with scratch() as path:
		with open(path + '/a.data', 'w'):
			pass
		for opt in BAD:
			raises(ValueError, READERS[arg], path + '/a.data',
					**{opt: BAD[opt]})
		raises(ValueError, READERS[arg], path + '/b.data')
	return True


@prop(st.lists(st.tuples(st.sampled_from(['', 'x/', 'y/']), st.integers(0, 999),
		st.integers(0, 999)), min_size=2, max_size=6, unique=True), quick=300,
		rule='file numbers with different number of digits')
def numeric_order(arg):
	"""File names sort by directory, then numeric components."""
	names = ['%swsj_%d-%d.mrg' % a for a in arg]
	same(sorted(names, key=numbase),
			['%swsj_%d-%d.mrg' % a for a in sorted(arg)], 'order')
	return len({len(str(a[1])) for a in arg}) > 1
