"""Options of corpus readers for functions, morphology, and lemmas."""
import os
import shutil
import tempfile
from contextlib import contextmanager
from xml.sax.saxutils import quoteattr, escape as xmlescape
from hypothesis import strategies as st
from core import prop, check, same, raises
from discodop import treebank
from discodop.tree import Tree, ParentedTree
from discodop.treebank import READERS, handlefunctions
import gens

NEED = ('bit', )
ASSUMPTIONS = ["with functions='remove', labels contain hyphens only before "
		'functions', 'brackets in tags, morphology and lemmas are replaced']

FUNC = ('', '--', 'SB', 'HD', 'OA', 'MO')
field = st.sampled_from(['--', 'Nom.Sg', 'be', 'x/y', '3', 'é', 'pl'])
ffield = st.one_of(field, st.sampled_from(['a(b)', '(']))
sfield = st.one_of(ffield, st.sampled_from(['en bas', 'a (b) c']))
FUNCTIONS = (None, 'leave', 'add', 'replace', 'remove', 'between')
MORPH = (None, 'no', 'add', 'replace', 'between')
LEMMAS = (None, 'no', 'add', 'replace', 'between')


@contextmanager
def scratch():
	path = tempfile.mkdtemp(prefix='corpus-', dir='.')
	try:
		yield path
	finally:
		shutil.rmtree(path)


@st.composite
def cases(draw):
	fmt = draw(st.sampled_from(['export', 'export3', 'tiger', 'alpino', 'ftb']))
	label = st.sampled_from(['S', 'NP', 'VP', 'PP'] if fmt == 'ftb'
			else ['S', 'NP', 'VP', 'NP-X', 'S=1', 'CNP-A=2'])
	if fmt == 'alpino':
		label = st.sampled_from(['SMAIN', 'NP', 'PP'])
	root = dict(export='ROOT', export3='ROOT', tiger='VROOT', alpino='TOP', ftb='SENT')[fmt]
	spec, sent = draw(gens.treesents(maxleaves=6, root=root, phrasal=label,
			disc=fmt != 'ftb', pos=('n', 'v', 'det')))
	if fmt == 'ftb':
		label = st.sampled_from(['NP', 'VP'])
	fields = []
	for a in gens.nodesof(spec):
		kind = (ffield if fmt.startswith('export') else sfield
				if fmt == 'alpino' else st.one_of(sfield, st.none(),
				st.just('')))
		fields.append((None if fmt == 'export3' else draw(kind), draw(kind),
				draw(st.sampled_from(FUNC[1:]))))
	return (fmt, spec, sent, fields, draw(st.sampled_from(FUNCTIONS)),
			draw(st.sampled_from(MORPH)), draw(st.sampled_from(LEMMAS)))


def render(fmt, spec, sent, fields):
	"""Independently written serialization."""
	nodes = gens.nodesof(spec)
	num = {id(a): n for n, a in enumerate(nodes)}
	attr = lambda **kwargs: ' '.join('%s=%s' % (a, quoteattr(b))
			for a, b in kwargs.items() if b is not None)
	if fmt.startswith('export'):
		pre, phr = {}, []
		parent = {id(b): a for a in nodes for b in a[1]
				if not isinstance(b, int)}
		for n, a in enumerate(nodes[1:], 1):
			lemma, morph, func = fields[n]
			p = parent[id(a)]
			rest = '\t'.join(([] if fmt == 'export3' else [lemma])
					+ [a[0], morph, func,
					'0' if p is spec else str(500 + num[id(p)])])
			if gens.ispre(a):
				pre[a[1][0]] = sent[a[1][0]] + '\t' + rest
			else:
				phr.append('#%d\t%s' % (500 + n, rest))
		return '\n'.join(['#FORMAT %d' % (3 if fmt == 'export3' else 4),
				'#BOS 1'] + [pre[n] for n in sorted(pre)] + phr
				+ ['#EOS 1', ''])
	elif fmt == 'tiger':
		name = {id(a): 's1_%s' % ('VROOT' if n == 0 else a[1][0] + 1
				if gens.ispre(a) else 500 + n) for n, a in enumerate(nodes)}
		text = ['<?xml version="1.0" encoding="utf-8"?>\n<corpus><body>\n'
				'<s id="s1"><graph root="s1_VROOT"><terminals>']
		for a in sorted((a for a in nodes if gens.ispre(a)),
					key=lambda a: a[1][0]):
			lemma, morph, _ = fields[num[id(a)]]
			text.append('<t id="%s" word=%s pos="%s" %s />' % (
					name[id(a)], quoteattr(sent[a[1][0]]), a[0],
					attr(lemma=lemma, morph=morph)))
		text.append('</terminals><nonterminals>')
		for a in nodes:
			if not gens.ispre(a):
				text.append('<nt id="%s" cat="%s">' % (name[id(a)], a[0]))
				text.extend('<edge label="%s" idref="%s" />' % (
						fields[num[id(b)]][2], name[id(b)]) for b in a[1])
				text.append('</nt>')
		return ''.join(text) + '</nonterminals></graph></s>\n</body></corpus>'
	elif fmt == 'ftb':
		def visit(a, nb=''):
			lemma, morph, func = fields[num[id(a)]]
			if gens.ispre(a):
				return '<w %s="%s" %s>%s</w>' % (
						'catint' if morph == 'pl' else 'cat', a[0],
						attr(lemma=lemma, ee=morph, fct=func),
						xmlescape(sent[a[1][0]]))
			return '<%s fct="%s"%s>%s</%s>' % (a[0], func, nb,
					''.join(visit(b) for b in a[1]), a[0])
		return ('<?xml version="1.0" encoding="utf-8"?>\n<text>'
				+ visit(spec, ' nb="1"') + '</text>')

	def visit1(a):
		lemma, morph, func = fields[num[id(a)]]
		leaves = gens.leavesof(a)
		common = 'id="%d" begin="%d" end="%d" rel="%s"' % (
				num[id(a)], min(leaves), max(leaves) + 1, func)
		if gens.ispre(a):
			return '<node %s pt="%s" word=%s %s />' % (
					common, a[0], quoteattr(sent[a[1][0]]),
					# used when there is no lemma / postag attribute
					attr(root=lemma, frame=morph) if num[id(a)] % 2
					else attr(lemma=lemma, postag=morph, root='X', frame='Y'))
		return '<node %s cat="%s">%s</node>' % (common, a[0].lower(),
				''.join(visit1(b) for b in a[1]))
	return ('<?xml version="1.0" encoding="utf-8"?>\n<alpino_ds>'
			+ visit1(spec) + '<sentence>%s</sentence></alpino_ds>' %
			xmlescape(' '.join(sent)))


def strip(label):
	for char in '-=':
		if label.find(char) > 0:
			label = label[:label.find(char)]
	return label


def transform(fmt, spec, sent, fields, functions, morphology, lemmas):
	"""The expected tree and sentence."""
	sent = sent[:]
	it = iter(fields)
	bracket = lambda x: x.replace('(', '[').replace(')', ']').replace(
			' ', '_')

	def visit(a, isroot=False):
		label, pre = a[0], gens.ispre(a)
		lemma, morph, func = next(it)
		if pre:
			lemma = bracket(lemma or '--')
			morph = bracket(morph or ('' if fmt == 'ftb' else '--'))
			children = a[1]
			idx = children[0]
			if lemmas == 'add':
				sent[idx] = sent[idx] + '/' + lemma
			elif lemmas == 'replace':
				sent[idx] = lemma
			elif lemmas == 'between':
				children = [[lemma, children]]
			if morphology == 'add':
				label = label + '/' + morph
			elif morphology == 'replace':
				label = morph
			elif morphology == 'between':
				children = [[morph, children]]
		else:
			children = [visit(b) for b in a[1]]
		if isroot and functions != 'remove':
			return [label, children]
		if functions == 'add' and func not in ('', '--'):
			label = '%s-%s' % (label, func)
		elif functions == 'replace':
			label = func or '--'
		elif functions == 'remove':
			label = strip(label)
		elif functions == 'between':
			return ['-' + (func or '--'), [[label, children]]]
		return [label, children]
	return visit(spec, True), sent


@prop(cases(), quick=3000, rule='more than one word, some option in effect')
def reader_options(arg):
	"""The options for functions, morphology, and lemmas change exactly the
	labels and words that they should; everything else is as annotated."""
	fmt, spec, sent, fields, functions, morphology, lemmas = arg
	want, wantsent = transform(*arg)
	with scratch() as path:
		os.mkdir(path + '/d')
		with open(path + '/d/a.xml', 'w', encoding='utf8') as out:
			out.write(render(fmt, spec, sent, fields))
		reader = READERS[fmt.rstrip('3')](path + '/d/a.xml', functions=functions,
				morphology=morphology, lemmas=lemmas)
		(tree, ), (gotsent, ) = reader.trees().values(), reader.sents().values()
		same(gens.canonspec(gens.unmk(tree)), gens.canonspec(want), 'tree')
		same(gotsent, wantsent, 'sentence')
		for a in tree.subtrees():
			for n, b in enumerate(a):
				check(isinstance(b, int) or (b.parent is a
						and b.parent_index == n), 'parent')
	if fmt in ('export', 'export3', 'alpino') and lemmas in (None, 'no'):
		data = render(fmt, spec, sent, fields)
		if fmt == 'alpino':
			data = data.replace('<alpino_ds>', '<alpino_ds>\n').replace(
					'</alpino_ds>', '\n</alpino_ds>\n')
		(tree, gotsent, _), = treebank.incrementaltreereader(
				data.splitlines(True), morphology, functions)
		same(gens.canonspec(gens.unmk(tree)), gens.canonspec(want),
				'tree read incrementally')
		same(gotsent, wantsent, 'sentence read incrementally')
	result = ['%s=%s' % a for a in (('functions', functions),
			('morphology', morphology), ('lemmas', lemmas))
			if a[1] not in (None, 'no', 'leave')]
	return result + [fmt] if result and len(sent) > 1 else []


# label: (label without function, function)
BLABELS = {'NP': ('NP', '--'), 'NP-SBJ': ('NP', 'SBJ'), 'NP-SBJ-1': ('NP', 'SBJ'),
		'S=2': ('S', '--'), 'NP-2': ('NP', '--'), 'NP-LGS=3': ('NP', 'LGS'),
		'-NONE-': ('-NONE-', '--'), 'WHNP-12': ('WHNP', '--'),
		'-LRB-': ('-LRB-', '--'), '$,': ('$,', '--'), 'A-B=C': ('A', None),
		'NP=2-SBJ': ('NP', 'SBJ'), 'NP-LOC-PRD-3': ('NP', 'LOC-PRD'),
		'NP-SBJ-TTL=12': ('NP', 'SBJ-TTL'), 'X-a': ('X', 'a'),
		'=': ('=', '--'), '-': ('-', '--'), 'PP-7': ('PP', '--')}
blabel = st.sampled_from(list(BLABELS))


@prop(st.tuples(gens.treesents(phrasal=blabel, pos=blabel, root='ROOT'),
		st.sampled_from(['bracket', 'discbracket'])), quick=600,
		rule='tree with functions in labels')
def bracket_functions(arg):
	"""Functions in labels of bracketed trees are removed when requested,
	but left alone otherwise; the source field has the function."""
	(spec, sent), fmt = arg
	if fmt == 'bracket':
		it = iter(range(len(sent)))

		def renumber(a):
			return next(it) if isinstance(a, int) else [
					a[0], [renumber(b) for b in a[1]]]
		spec = renumber(spec)
	with scratch() as path:
		with open(path + '/a.mrg', 'w', encoding='utf8') as out:
			out.write(treebank.writetree(gens.mk(spec, ParentedTree), sent, '1',
					fmt))
		tree, = READERS[fmt](path + '/a.mrg').trees().values()
		same(gens.unmk(tree), spec, 'tree')
		for a in tree.subtrees():
			func = BLABELS.get(a.label, (None, '--'))[1]
			if func is not None:
				same(a.source[treebank.FUNC], func, 'function of %s' % a.label)
		tree, = READERS[fmt](path + '/a.mrg', functions='remove'
				).trees().values()

	def visit(a):
		return a if isinstance(a, int) else [BLABELS.get(a[0], a)[0],
				[visit(b) for b in a[1]]]
	same(gens.unmk(tree), visit(spec), 'without functions')
	return visit(spec) != spec


@prop(st.tuples(gens.specs(root='ROOT', maxleaves=6, phrasal=('NP', 'SB', 'NP-SB',
		'-NONE-', 'HD=2', '--')), st.lists(st.sampled_from(FUNC), min_size=40, max_size=40),
		st.sampled_from(FUNCTIONS), st.booleans(), st.booleans()), quick=800,
		rule='function tags are added, replaced, or inserted')
def handle_functions(arg):
	"""handlefunctions with pos and root arguments."""
	spec, funcs, action, pos, root = arg
	tree = gens.mk(spec, ParentedTree)
	for a, b in zip(tree.subtrees(), funcs):
		a.source = ['--'] * len(treebank.FIELDS)
		a.source[treebank.FUNC] = b
	handlefunctions(action, tree, pos=pos, root=root)
	it = iter(funcs)

	def visit(a, isroot=False):
		func = next(it)
		children = [visit(b) for b in a[1]] if not gens.ispre(a) else a[1]
		label = a[0]
		if action == 'remove':
			label = strip(label)
		elif (gens.ispre(a) and not pos) or (isroot and (
				not root or action == 'between')):
			pass
		elif action == 'replace':
			label = '--' if func == '' else func
		elif action == 'between':
			return ['-' + ('--' if func == '' else func), [[label, children]]]
		elif action == 'add' and func not in ('', '--'):
			label += '-' + func
		return [label, children]
	want = visit(spec, True)
	same(gens.unmk(tree), want, 'tree')
	return [action] if want != spec else []
