"""Treebank transformations: state splits, encoding of functions and
morphology, collapsed labels, the relational-realizational transform."""
import re
from hypothesis import strategies as st
import gens
from gens import biased
from core import prop, check, same

NEED = ('bit', 'containers')

# --- annotated trees as plain data -------------------------------------------
# [label, func, morph, lemma, head, children]
LANGS = dict(
	negra=dict(
		root='ROOT',
		phrasal='S VP NP PP AP AVP CNP CS PN'.split(),
		pos='ART NN NE ADJA ADJD APPR KON KOUS PRELS PWS PWAT VVFIN VVPP '
			'VVIMP PPER PDS CARD ADV $.'.split(),
		funcs='-- SB MO RC RE OC CJ NK HD AC PNC CD OA EP PD'.split(),
		morph='-- Nom.Sg.Masc 3.Sg.Pres Dat.Pl.* (Acc.Sg) *.*.Gen Def'.split(),
		words='in von weder oder oder entweder entweder Haus man 1999 2012 . ? ! , In '
			'als 99 % unters der'.split()),
	wsj=dict(
		root='TOP',
		phrasal='S SBAR VP NP PP ADJP WHNP SINV UCP QP ADVP WHADVP SQ'.split(),
		pos='IN NN NNS DT RB VB VBZ VBD VBN VBG TO MD CC POS JJ -LRB-'.split(),
		funcs='-- SBJ TMP ADV LOC SBJ-TMP PRD-ADV HLN'.split(),
		morph=['--'],
		words="but But & AT&T s ai % 's is have been 'd man 1987 2000 . ? ! to ( ) "
			"{ 1899 19870 'm".split()),
	ftb=dict(
		root='SENT',
		phrasal='NP PP VN VPinf VPpart COORD MWADV MWN AP Sint Srel'.split(),
		pos='V P N A D ADV PONCT CL C'.split(),
		funcs='-- SUJ OBJ MOD ATS'.split(),
		morph='-- P-- N-P-'.split(),
		words="de du d' Des le - . ? 1999 sur chat".split()),
	lassy=dict(
		root='ROOT',
		phrasal='SMAIN PP INF NP CONJ MWU SSUB TI'.split(),
		pos='n vnw ww vg lid adj vz let'.split(),
		funcs='-- su obj1 hd HD cnj crd mod vc body mwp OBJ1'.split(),
		morph='ww(pv,tgw,ev) n(soort,ev) vg(neven) vg(onder) let() '
			'vnw(pers,pron,nomin) ww(inf,vrij) ww(vd,prenom) ww(pv,verl) '
			'n(eigen.ev) bw'.split(),
		words='de man loopt 1999 2001 . , en ? ( ) een'.split()))


@st.composite
def flat(draw, p):
	"""One or two constituents with several children."""
	ids = iter(range(99))
	pre = lambda: [draw(st.sampled_from(p['pos'])), [next(ids)]]  # noqa
	phrase = lambda f, n: [draw(st.sampled_from(p['phrasal'])),  # noqa
			[f() for _ in range(draw(st.integers(1, n)))]]
	small = lambda: phrase(pre, 3) if draw(st.booleans()) else pre()  # noqa
	return [p['root'], [phrase(small, 6)
			for _ in range(1 + biased(draw, 4, 1))]]


@st.composite
def trees(draw, lang=None, disc=True, maxleaves=8, funcs=True, over=None):
	"""Draw ``(lang, spec, sent)``."""
	lang = lang or draw(st.sampled_from(sorted(LANGS)))
	p = dict(LANGS[lang], **(over or {}))
	if over and biased(draw, 2, 1):
		spec = draw(flat(p))
	else:
		spec = draw(gens.specs(minleaves=1, maxleaves=maxleaves, disc=disc,
				phrasal=p['phrasal'], pos=p['pos'], root=p['root']))
	sent = [draw(st.sampled_from(p['words'])) for _ in gens.leavesof(spec)]
	if gens.ispre(spec):
		spec = [p['root'], [[draw(st.sampled_from(p['pos'])), spec[1]]]]

	def annotate(a):
		pre = gens.ispre(a)
		kids = a[1] if pre else [annotate(b) for b in a[1]]
		if not pre:
			kids[draw(st.integers(0, len(kids) - 1))][4] = True
		return [a[0], draw(st.sampled_from(p['funcs'])) if funcs else '--',
				draw(st.sampled_from(p['morph'])) if pre else '--',
				draw(st.sampled_from(('--', 'zijn', '(', 'a)b', 'dat')))
				if pre else '--', False, kids]
	result = annotate(gens.canonspec(spec))
	result[0], result[1] = p['root'], '--'
	return lang, result, sent


def build(spec, sent, source=True):
	from discodop.tree import ParentedTree, HEAD
	ids = iter(range(500, 999))

	def visit(a, parent):
		label, func, morph, lemma, head, kids = a
		pre = isinstance(kids[0], int)
		myid = 0 if parent is None else None if pre else next(ids)
		result = ParentedTree(label, kids if pre
				else [visit(b, myid) for b in kids])
		if source and parent is not None:
			result.source = [sent[kids[0]] if pre else '#%d' % myid, lemma,
					label, morph, func, str(parent)]
		if head:
			result.type = HEAD
		return result
	return visit(spec, None)


def skel(spec):
	"""[label, [kids]]"""
	return spec if isinstance(spec, int) else [
			spec[0], [skel(a) for a in spec[5]]]


def sources(tree):
	return [list(a.source) if a.source else None for a in tree.subtrees()]


# --- reference for state splits ----------------------------------------------

class Node:
	def __init__(self, spec, parent=None, source=True):
		self.label, func, self.morph, self.lemma, self.head, kids = spec
		self.func = func if source and parent else ''
		self.hasmorph = source and parent is not None
		self.parent = parent
		self.kids = [a if isinstance(a, int) else Node(a, self, source)
				for a in kids]
		self.pre = isinstance(self.kids[0], int)

	def nodes(self):
		result = [self]
		if not self.pre:
			for a in self.kids:
				result.extend(a.nodes())
		return result

	def spec(self):
		return [self.label, [a if isinstance(a, int) else a.spec()
				for a in self.kids]]

	# tests
	def cat(self):
		"""Label without function tags and splits."""
		return re.split('-' if '-' in self.label else r'\^', self.label)[0]

	def isa(self, *cats):
		return any(self.label == a or self.label.startswith(a + '^')
				or self.label.startswith(a + '-') for a in cats)

	def f(self):
		return self.func.split('-')[0]

	def fs(self):
		return [] if self.func in ('', '--') else self.func.split('-')

	def up(self, n=1):
		node = self
		for _ in range(n):
			node = node.parent if node is not None else None
		return node

	def hd(self):
		return next((a for a in self.kids if not self.pre and a.head), None)

	def feats(self):
		if not self.hasmorph:
			return []
		m = re.search(r'[(\[](.*?)[)\]]', self.morph)
		return re.split('[.,]', m.group(1)) if m else []


def isa(node, *cats):
	return node is not None and node.isa(*cats)


def splitinref(n, sent):
	p, g = n.parent, n.up(2)
	if not n.isa('IN'):
		return ''
	if isa(g, 'N') and isa(p, 'P', 'A'):
		return 'N'
	elif isa(p, 'Q') and isa(g, 'N', 'ADJP'):
		return 'Q'
	elif g is not None and g.label[0] == 'S' and not isa(g, 'SBAR'):
		return ('SCC' if isa(p, 'SBAR')
				else '' if isa(p, 'NP', 'ADJP') else 'SC')
	elif isa(p, 'SBAR', 'WHNP', 'WHADVP'):
		return 'T'
	return ''


def auxref(n, sent):
	word = sent[n.kids[0]].lower() if n.pre else ''
	if n.cat() not in ('VBZ', 'VBP', 'VBD', 'VBN', 'VBG', 'VB') or not n.pre:
		return ''
	if word in ('is', 'am', 'are', 'was', 'were', "'m", "'re", "'s", 'being',
			'be', 'been'):
		return 'BE'
	return 'HV' if word in ('have', "'ve", 'having', 'has', 'had', "'d") else ''


def aux2ref(n, sent):
	if n.cat() not in ('VBZ', 'VBP', 'VBD', 'VBN', 'VBG', 'VB') or not n.pre:
		return ''
	word = sent[n.kids[0]].lower()
	if word in ("'s", 's'):  # contraction of is or has; followed by participle?
		sib = n.parent.kids
		aux = next((m for m, a in enumerate(sib)
				if a.label.startswith('VBZ')), len(sib))
		return 'HV' if any(a.isa('VP') and not a.pre and any(b.cat() in (
				'VBD', 'VBN') for b in a.kids) for a in sib[aux + 1:]) else 'BE'
	return 'BE' if word == 'ai' else auxref(n, sent)


def splitin3ref(n, sent):
	p, g = n.parent, n.up(2)
	if not n.isa('IN'):
		return ''
	if isa(g, 'N') and isa(p, 'P', 'A'):
		return 'N'
	elif isa(p, 'Q') and isa(g, 'N', 'ADJP'):
		return 'Q'
	elif isa(g, 'S'):
		return 'SCC' if isa(p, 'SBAR') else 'SC'
	return 'T' if isa(p, 'SBAR', 'WHNP') else ''


def gappedref(n, sent):
	if not n.isa('S') or n.pre:
		return ''
	nps = sum(a.label.startswith('NP') for a in n.kids)
	pred = any(a.cat() in ('VP', 'ADJP', 'PP', 'UCP') for a in n.kids)
	coord = (any(a.label.startswith('CC') for a in n.kids)
			and any(a.label.startswith('S') for a in n.kids))
	return 'G' if not coord and (nps == 0 or nps == 1 and not pred) else ''


def lexprepref(n, sent):
	if not n.pre:
		return ''
	w = sent[n.kids[0]].lower()
	if n.isa('APPR'):
		return w if w in ('in', 'von', 'auf', 'durch', 'um', 'unter', 'unters',
				'unterm') else ''
	if n.isa('KON') and n.f() == 'CD':
		if w in ('sowohl', 'als', 'weder', 'entweder', 'noch'):
			return w
		if w == 'oder' and 'entweder' in [a.lower()
				for a in sent[:n.kids[0]]]:
			return w
	return ''


def headcatref(n, only=None):
	hd = n.hd()
	if not n.isa('VP') or hd is None:
		return ''
	if hd.cat() in ('VBZ', 'VBP', 'VBD', 'MD'):
		return 'VBF'
	return (hd.cat(), ) if only is None or hd.cat() in only else ''


def vphdref(n, sent):
	if n.label != 'VP' or n.pre:
		return ''
	return {'VB': 'HINF', 'TO': 'HTO', 'VBN': 'HPART', 'VBG': 'HPART'}.get(
			n.hd().label, '')


def childseq(n, *cats):
	return [a.cat() for a in n.kids] == list(cats) if not n.pre else False


# name -> (node, sent) -> annotation
SIMPLE = {
	'MARK-YEAR': lambda n, s: 'year' if n.pre and re.match(
		r'(19|20)\d\d\Z', s[n.kids[0]]) else '',
	'PUNCT': lambda n, s: s[n.kids[0]] if n.pre and s[n.kids[0]] in (
		'.', '?', '!') else '',
	'PARENT': lambda n, s: '' if n.pre or not n.parent else n.parent.cat(),
	'NP-PP': lambda n, s: 'NP' if n.label == 'PP'
		and n.parent.label == 'NP' else '',
	'S-RC': lambda n, s: 'RC' if n.label == 'S' and n.f() == 'RC' else '',
	'MARK-UNARY': lambda n, s: 'U' if not n.pre and len(n.kids) == 1 else '',
	'whFeat': lambda n, s: 'wh' if not n.pre and n.cat() in ('NP', 'PP') and any(
		a.cat() in ('PWAT', 'PWS', 'PWAV') for a in n.kids) else '',
	'lexPrep': lexprepref,
	'VPfeat': lambda n, s: n.hd().cat() if n.isa('VP') and n.f() == 'OC'
		and not n.pre else '',
	'noHead': lambda n, s: 'nohead' if n.parent and not n.pre and not any(
		a.f() in ('HD', 'PNC', 'AC', 'AVC', 'NMC', 'PH', 'PD', 'ADC', 'UC',
			'DH') for a in n.kids) else '',
	'noSubj': lambda n, s: 'nosubj' if not n.pre and n.isa('S')
		and n.f() == 'CJ' and not any(a.f() in ('SB', 'EP')
			or a.cat() in ('VVIMP', 'VAIMP') for a in n.kids) else '',
	'VP-HD': vphdref,
	'S-INF': lambda n, s: 'INF' if n.label == 'S' and not n.pre
		and n.hd().label in ('VP^HINF', 'VP^HTO') else '',
	'S-WH': lambda n, s: 'WH' if n.label == 'S' and n.parent
		and n.parent.label == 'SBAR'
		and any(a.label.startswith('WH') for a in n.kids if not n.pre) else '',
	'splitIN4': splitinref,
	'splitAux2': aux2ref,
	'splitIN': splitin3ref,
	'splitPercent': lambda n, s: '%' if n.pre and s[n.kids[0]] == '%' else '',
	'splitPoss': lambda n, s: 'P' if n.isa('NP') and not n.pre
		and n.kids[-1].label.startswith('POS') else '',
	'splitCC': lambda n, s: '' if not n.isa('CC') else 'B'
		if s[n.kids[0]].lower() == 'but' else 'A' if s[n.kids[0]] == '&'
		else '',
	'unaryDT': lambda n, s: 'U' if n.isa('DT')
		and len(n.parent.kids) == 1 else '',
	'unaryRB': lambda n, s: 'U' if n.isa('RB')
		and len(n.parent.kids) == 1 else '',
	'splitAux': auxref,
	'splitVP': lambda n, s: headcatref(n),
	'splitVP3': lambda n, s: headcatref(n, ('TO', 'VBG', 'VBN', 'VB')),
	'splitSGapped': gappedref,
	'splitBaseNP': lambda n, s: 'B' if n.isa('NP') and not n.pre and all(
		a.pre for a in n.kids) else '',
	'dominatesV': lambda n, s: 'v' if n.isa('VP') and any(
		a.pre and a.label.startswith(('V', 'MD')) for a in n.nodes()) else '',
	'markDitransV': lambda n, s: '2Arg' if n.label.startswith('VB') and sum(
		a.isa('NP') and 'TMP' not in a.fs() for a in n.parent.kids) >= 2
		else '',
	'markinf': lambda n, s: 'infinitive' if n.cat() == 'V' and n.up(2)
		and n.parent.cat() == 'VN' and n.up(2).cat() == 'VPinf' else '',
	'markpart': lambda n, s: 'participle' if n.cat() == 'V' and n.up(2)
		and n.parent.cat() == 'VN' and n.up(2).cat() == 'VPpart' else '',
	'coord1': lambda n, s: n.kids[1].cat() if n.cat() == 'COORD'
		and len(n.kids) >= 2 else '',
	'de2': lambda n, s: 'de2' if n.cat() == 'P' and re.match(
		r"(?:[Dd]es?|du|d')\Z", s[n.kids[0]]) else '',
	'markp1': lambda n, s: 'n' if n.cat() == 'P' and n.parent.cat() == 'PP'
		and n.up(2) and n.up(2).cat() == 'NP' else '',
	'mwadvs': lambda n, s: 'mwadv-s' if n.cat() == 'MWADV'
		and 'S' in n.parent.label else '',
	'mwadvsel1': lambda n, s: 'mwadv1' if n.cat() == 'MWADV'
		and childseq(n, 'P', 'N') else '',
	'mwadvsel2': lambda n, s: 'mwadv2' if n.cat() == 'MWADV'
		and childseq(n, 'P', 'D', 'N') else '',
	'mwnsel1': lambda n, s: 'mwn1' if n.cat() == 'MWN'
		and childseq(n, 'N', 'A') else '',
	'mwnsel2': lambda n, s: 'mwn2' if n.cat() == 'MWN'
		and childseq(n, 'N', 'P', 'N') else '',
	'nlmwuhead': lambda n, s: next(a.cat() for a in n.kids
		if a.head or a is n.kids[-1]) if n.cat() == 'MWU'
		and not n.pre else '',
	# functions as annotation
	'NP': lambda n, s: (n.f(), ) if n.label == 'NP' else '',
	'VP-GF': lambda n, s: (n.f(), ) if n.label == 'VP' else '',
}
PUNCT = set('.,():-";?/!*&`[]<>{}|=') | {'-LRB-', '-RRB-', '-LCB-', '-RCB-'}


def annotate(root, name, sent):
	"""Apply state split to Node structure."""
	new = {}

	def add(node, a):
		new.setdefault(id(node), []).append('^' + a)
	nodes = root.nodes()
	if name in SIMPLE:
		for n in nodes:
			a = SIMPLE[name](n, sent)
			if isinstance(a, tuple):
				add(n, a[0])
			elif a:
				add(n, a)
	elif name == 'TAGPA':
		for n in nodes:
			if n.pre and sent[n.kids[0]] not in PUNCT:
				add(n, n.parent.cat())
	elif name == 'relPath':
		for n in nodes:
			if n.isa('S') and n.f() == 'RC':
				rel = next((a for a in n.nodes() if a.cat() in (
						'PRELS', 'PRELAT', 'PWAV', 'PWS')), None)
				if rel is None:
					add(n, 'norel')
				else:
					while rel.parent is not n:
						rel = rel.parent
						add(rel, 'rel')
					add(n, 'rel')
	elif name == 'adjAttach':
		for n in nodes:
			if n.cat() in ('PP', 'AVP', 'ADV', 'ADJD'):
				cat = n.parent.cat()
				a = ('V' if cat in ('S', 'VP') else 'N' if cat in ('NP', 'PP')
						else '0')
				add(n, a)
				if n.cat() == 'AVP' and n.hd():  # inherited by head
					add(n.hd(), a)
	elif name == 'nounSeq':
		for n in nodes:
			if n.isa('NP') and not n.pre:
				for a, b in zip(n.kids, n.kids[1:]):
					if a.isa('NN') and b.isa('NN'):
						add(a, 'seq')
						break
	elif name == 'properChunks':
		for n in nodes:
			if n.isa('NP') and n.f() == 'PNC' and not n.pre:
				for a in n.kids:
					add(a, 'name')
	elif name == 'markAP':
		for n in nodes:
			if n.isa('AP'):
				if any(a.isa('ADJD') for a in n.nodes()):
					add(n, 'pred')
				if any(a.head and a.cat() in ('NN', 'NP') for a in n.kids):
					add(n, 'nom')
	elif name == 'subConjType':
		for n in nodes:
			if n.isa('S') and n.f() in ('SB', 'OC', 'MO', 'RE'):
				for a in n.kids:
					if a.isa('KOUS'):
						add(a, n.f())
						break
	elif name == 'splitNPADV':
		for n in nodes:
			if n.isa('NP') and 'ADV' in n.fs():
				add(n, 'ADV')
				hd = n.hd()
				if isa(hd, 'POS') and n.kids.index(hd) > 0:
					hd = n.kids[n.kids.index(hd) - 1]
				while isa(hd, 'NP'):
					add(hd, 'ADV')
					hd = hd.hd()
	elif name == 'markvn':
		for n in nodes:
			if n.cat() == 'VN':
				for a in n.nodes()[1:]:
					add(a, 'withVN')
	elif name == 'nlpercolatemorph':
		for feat in ('inf', 'pv'):
			for n in nodes:
				if n.pre and feat in n.feats():
					for a in (n.parent, n.up(2)):
						if a is not None and a.parent is not None:
							cur = ''.join([a.label] + new.get(id(a), []))
							if not cur.endswith('^' + feat):
								add(a, feat)
	elif name == 'nlselectmorph':
		for n in nodes:
			if n.pre:
				new[id(n)] = ['/%s[%s]' % (n.morph.split('(')[0], ','.join(
						a for a in n.feats() if a in ('eigen', 'det', 'pron',
						'init', 'fin', 'neven', 'onder', 'prenom', 'nom',
						'vrij', 'pv', 'inf', 'vd', 'od')))]
	elif name == 'addCase':
		for n in nodes:
			if n.pre and n.hasmorph:
				case = [a for a in re.split('[^A-Za-z]', n.morph)
						if a in ('Nom', 'Acc', 'Gen', 'Dat')]
				if case:
					new[id(n)] = ['/' + case[0]]
	elif name == 'PTBbrackets':
		sent[:] = [{'(': '-LRB-', ')': '-RRB-', '{': '-LCB-', '}': '-RCB-',
				'[': '-LSB-', ']': '-RSB-'}.get(a, a) for a in sent]
	elif name == 'APPEND-FUNC':
		for n in nodes:
			if n.fs() and not n.label.endswith('-'):
				new[id(n)] = ['-' + n.func]
	else:
		raise ValueError(name)
	for n in nodes:
		n.label += ''.join(new.get(id(n), ()))


GENERAL = 'MARK-YEAR PUNCT PARENT TAGPA MARK-UNARY APPEND-FUNC'.split()
OPS = dict(
	negra='S-RC NP VP-GF NP-PP addCase lexPrep adjAttach relPath whFeat '
		'nounSeq properChunks markAP subConjType VPfeat noHead noSubj'.split(),
	wsj='PTBbrackets S-WH VP-HD S-INF splitIN4 splitPercent splitPoss '
		'splitAux2 splitIN splitCC unaryDT unaryRB splitAux splitVP splitVP3 splitSGapped '
		'splitBaseNP dominatesV splitNPADV markDitransV'.split(),
	ftb='markinf markpart markvn coord1 de2 markp1 mwadvs mwadvsel1 '
		'mwadvsel2 mwnsel1 mwnsel2'.split(),
	lassy='nlselectmorph nlpercolatemorph nlmwuhead'.split())


# labels and functions on which a state split depends
RELEVANT = {
	'S-RC': ('S NP', 'NN', 'RC --'), 'NP': ('NP S', 'NN', 'SB OA --'),
	'VP-GF': ('VP S', 'NN', 'OC --'), 'NP-PP': ('NP PP', 'NN', '--'),
	'lexPrep': ('NP S', 'APPR KON KON', 'CD CD --',
		'in oder Entweder entweder weder unter von noch'),
	'adjAttach': ('S VP NP PP AVP CNP', 'ADV ADJD NN', '--'),
	'relPath': ('S NP PP', 'PRELS PWS NN NN', 'RC RC --'),
	'whFeat': ('NP PP S', 'PWAT PWS NN', '--'),
	'nounSeq': ('NP NP S', 'NN NN ART', '--'),
	'properChunks': ('NP S', 'NE NN', 'PNC --'),
	'markAP': ('AP AP NP', 'ADJD NN ADJA', '--'),
	'subConjType': ('S S NP', 'KOUS NN', 'SB OC MO HD'),
	'VPfeat': ('VP S', 'VVPP VVFIN', 'OC --'),
	'noHead': ('S NP', 'NN', 'HD -- -- PNC'),
	'noSubj': ('S', 'NN VVIMP', 'CJ -- SB'),
	'S-WH': ('SBAR S WHNP', 'NN', '--'),
	'VP-HD': ('VP S', 'VB TO VBN NN', '--'),
	'S-INF': ('S VP', 'VB TO', '--'),
	'splitIN4': ('S SBAR NP PP ADJP WHNP QP WHADVP SINV', 'IN', '--'),
	'splitPoss': ('NP S', 'POS NN', '--'), 'splitCC': ('NP', 'CC', '--'),
	'unaryDT': ('NP S', 'DT NN', '--'), 'unaryRB': ('ADVP S', 'RB NN', '--'),
	'splitAux': ('VP', 'VBZ VBD VB VBN NN', '--'),
	'splitAux2': ('VP', 'VBZ VBZ VBD VBN NN', '--', "'s 's s ai been had"),
	'splitIN': ('S SBAR NP PP ADJP WHNP QP WHADVP', 'IN', '--'),
	'splitVP': ('VP S', 'VBZ MD TO NN VBN', '--'),
	'splitVP3': ('VP S', 'VBZ MD TO NN VBN', '--'),
	'splitSGapped': ('S S NP NP NP VP PP', 'CC NN', '--'),
	'splitBaseNP': ('NP NP S', 'NN DT', '--'),
	'dominatesV': ('VP NP', 'NN MD VBZ', '--'),
	'splitNPADV': ('NP NP S', 'NN POS', 'ADV --'),
	'markDitransV': ('VP NP NP', 'VBD NN', 'TMP --'),
	'markinf': ('VPinf VN NP', 'V N', '--'),
	'markpart': ('VPpart VN NP', 'V N', '--'),
	'coord1': ('COORD NP', 'C N', '--'), 'de2': ('PP', 'P N', '--'),
	'markp1': ('NP PP', 'P N', '--'), 'mwadvs': ('MWADV Sint NP', 'P N', '--'),
	'mwadvsel1': ('MWADV NP', 'P N', '--'),
	'mwadvsel2': ('MWADV', 'P D N', '--'), 'mwnsel1': ('MWN', 'N A', '--'),
	'mwnsel2': ('MWN', 'N P', '--'), 'nlmwuhead': ('MWU NP', 'n lid', '--')}


@st.composite
def splitcases(draw):
	lang = draw(st.sampled_from(sorted(LANGS)))
	ops = draw(st.lists(st.sampled_from(OPS[lang] * 2 + GENERAL), min_size=1,
			max_size=4, unique=True))
	over = None
	if ops[0] in RELEVANT and biased(draw, 6, 5):
		over = dict(zip(('phrasal', 'pos', 'funcs', 'words'), (
				a.split() for a in RELEVANT[ops[0]])))
	lang, spec, sent = draw(trees(lang=lang, over=over))
	source = lang == 'lassy' or biased(draw, 5, 4)
	if 'APPEND-FUNC' in ops and 'mwadvs' in ops:
		ops.remove('mwadvs')
	return lang, spec, sent, ops, source


@prop(splitcases(), 5000, 60000, 'a state split applies')
def splits(case):
	from discodop import treebanktransforms as tt
	lang, spec, sent, ops, source = case
	tree = build(spec, sent, source)
	before = sources(tree)
	ref, refsent = Node(spec, None, source), list(sent)
	tags = []
	for a in ops:
		prev = ref.spec()
		annotate(ref, a, refsent)
		if ref.spec() != prev:
			tags.append(a)
	xsent = list(sent)
	result = tt.transform(tree, xsent, tuple(ops))
	check(result is tree, 'tree should be modified in-place')
	same(gens.unmk(tree), ref.spec(), 'after %s' % (ops, ))
	same(xsent, refsent, 'sentence')
	gens.links(tree)
	same(sources(tree), before, 'sources')
	# reversal removes all annotation
	back = tt.reversetransform(tree, xsent, tuple(ops))
	same(gens.unmk(back), gens.canonspec(skel(spec)), 'reversed %s' % (ops, ))
	gens.links(back)
	return tags




# --- functions, morphology, lemmas encoded in labels ---------------------------

@st.composite
def encodecases(draw):
	lang, spec, sent = draw(trees(over=draw(st.sampled_from((None, None, dict(
			phrasal=['NP', '-LRB-', 'S']))))))
	ops = draw(st.lists(st.sampled_from(
			('APPEND-MORPH', 'MORPH-NODE')), max_size=1))
	func = draw(st.sampled_from(('', 'APPEND-FUNC', 'FUNC-NODE')))
	if func:
		ops.insert(0, func)
	if biased(draw, 3, 1):
		ops.append('LEMMA-NODE')
	return lang, spec, sent, ops, draw(st.booleans())


@prop(encodecases(), 800, 30000, 'some information is encoded')
def encode(case):
	from discodop import treebanktransforms as tt
	from discodop.tree import ParentedTree
	lang, spec, sent, ops, fresh = case
	tree = tt.transform(build(spec, sent), list(sent), tuple(ops))
	want = Node(spec)
	nodes = want.nodes()
	labels = sorted(a.label for a in nodes)
	same(sorted(tree.leaves()), list(range(len(sent))), 'leaves')
	gens.links(tree)
	extra = len(list(tree.subtrees())) - len(labels)
	numpre = sum(a.pre for a in nodes)
	numfunc = sum(bool(a.fs()) and not a.label.endswith('-') for a in nodes)
	same(extra, ('MORPH-NODE' in ops) * numpre + ('LEMMA-NODE' in ops) * numpre
			+ ('FUNC-NODE' in ops) * numfunc, 'number of new nodes')
	if fresh:  # as obtained from parser, only labels
		tree = ParentedTree.convert(gens.mk(gens.unmk(tree), ParentedTree))
	back = tt.reversetransform(tree, list(sent), tuple(ops))
	same(gens.unmk(back), gens.canonspec(skel(spec)), 'reversed')
	gens.links(back)
	for a, b in zip(nodes, back.subtrees()):
		if {'APPEND-FUNC', 'FUNC-NODE'} & set(ops) and a.fs() and (
				not a.label.endswith('-')):
			same(b.source[tt.FUNC], a.func, 'function of %s' % b)
		if {'APPEND-MORPH', 'MORPH-NODE'} & set(ops) and a.pre:
			same(b.source[tt.MORPH], a.morph, 'morphology of %s' % b)
		if 'LEMMA-NODE' in ops and a.pre:
			same(b.source[tt.LEMMA], a.lemma, 'lemma of %s' % b)
		if b.source and a.parent and not a.pre:
			check(re.match('#[0-9]+$', b.source[tt.WORD]), 'no node id: %s' % b)
	ids = [b.source[tt.WORD] for a, b in zip(nodes, back.subtrees())
			if b.source and a.parent and not a.pre]
	same(len(set(ids)), len(ids), 'unique node ids: %s' % ids)
	return ops




# --- transformations that change the structure --------------------------------

# relevant labels and functions
STRUCT = {
	'addUnary': ('S VP ROOT NP PN PN', 'NN PDS PIS CARD ART PN', '-- SB HD OA'),
	'nladdunary': ('SMAIN PP INF NP', 'n vnw ww lid', '-- su hd OBJ1 mod'),
	'elimNKCJ': ('NP CNP S', 'ART NN KON', '-- NK CJ HD CD SB'),
	'nlelimcnj': ('CONJ NP PP', 'n vg let', '-- cnj su crd'),
	'PP-NP': ('PP PP PP NP PN', 'APPR NE ART NN', 'AC NK MO'),
	'DP': ('NP NP PP PN', 'ART NN', '-- NK'),
	'SBAR': ('S S NP', 'KOUS NN VVFIN', 'CP -- SB'),
	'NEST': ('NP NP PP', 'ART NN', 'MO MO NK'),
	'VP-FIN_NEGRA': ('S S CS VP', 'VVFIN NN ADV ITJ', 'HD OA DM SB MO'),
	'POS-PART': ('S VP VVFIN', 'VVFIN PTKVZ NN', 'SVP HD SB'),
	'VP-FIN_WSJ': ('S S NP', 'VBZ NN', 'SBJ -- TMP TMP-SBJ'),
	'FANOUT': ('S VP NP', 'NN VB', '--')}


@st.composite
def structcases(draw):
	name = draw(st.sampled_from(sorted(STRUCT) + 2 * ['PP-NP']))
	lang = ('wsj' if name == 'VP-FIN_WSJ' else 'lassy' if name.startswith('nl')
			else 'negra')
	over = None
	if biased(draw, 4, 3):
		over = dict(zip(('phrasal', 'pos', 'funcs'), (
				a.split() for a in STRUCT[name])))
	return (name, ) + draw(trees(lang=lang, over=over,
			disc=name == 'FANOUT' or biased(draw, 4, 1)))


# original annotation that cannot be distinguished from the transformed one
AMBIGUOUS = {
	'PP-NP': lambda n: n.isa('PP') and not n.pre and any(
		a.cat() in ('NP', 'NN') for a in n.kids),
	'SBAR': lambda n: n.isa('S') and not n.pre and n.kids[0].f() == 'CP'
		and n.kids[0].isa('S'),
	'DP': lambda n: False}


class R:
	"""Mutable node for reference: label, function, head, kids."""
	def __init__(self, label, kids, func='', head=False):
		self.label, self.kids = label, kids
		self.func, self.head, self.funcs = func, head, [func]

	@staticmethod
	def make(spec):
		result = R(spec[0], [a if isinstance(a, int) else R.make(a)
				for a in spec[5]], spec[1].split('-')[0], spec[4])
		result.funcs = spec[1].split('-')
		return result

	def phrases(self):
		"""Phrasal nodes in preorder (fixed beforehand)."""
		if isinstance(self.kids[0], int):
			return []
		return [self] + [b for a in self.kids for b in a.phrases()]

	def leaves(self):
		return [a for b in self.kids for a in (
				[b] if isinstance(b, int) else b.leaves())]

	def spec(self):
		return [self.label, [a if isinstance(a, int) else a.spec()
				for a in sorted(self.kids, key=lambda x: x
					if isinstance(x, int) else min(x.leaves()))]]


def restructure(name, spec):
	"""Reference for new levels of structure; None if unspecified."""
	root = R.make(spec)
	root.func = ''
	nodes = root.phrases()
	if name == 'PP-NP':
		for a in nodes:
			if a.label != 'PP':
				continue
			fs = [b.func for b in a.kids]
			out = [f == 'AC' for f in fs]
			if 'AC' in fs and 'NK' in fs:
				ac = [n for n, f in enumerate(fs) if f == 'AC']
				nk = [n for n, f in enumerate(fs) if f == 'NK']
				for n in range(len(fs)):
					if ac[0] < nk[0] and n < ac[0]:
						out[n] = True
					if ac[-1] > nk[-1] and n > ac[-1]:
						out[n] = True
			inner = [b for b, o in zip(a.kids, out) if not o]
			outer = [b for b, o in zip(a.kids, out) if o]
			if inner and outer and not (len(inner) == 1
					and inner[0].label in ('NP', 'PN')):
				a.kids = outer + [R('NP', inner)]
	elif name == 'DP':
		for a in nodes:
			if a.label == 'NP' and a.kids[0].label == 'ART':
				a.label = 'DP'
				if len(a.kids) > 1 and a.kids[1].label != 'PN':
					a.kids = [a.kids[0], R('NP', a.kids[1:])]
	elif name == 'SBAR':
		for a in nodes:
			if a.label == 'S' and len(a.kids) > 1 and a.kids[0].func == 'CP':
				a.label = 'SBAR'
				a.kids = [a.kids[0], R('S', a.kids[1:])]
	elif name == 'NEST':
		for a in nodes:
			mods = [b for b in a.kids if b.func == 'MO']
			if a.label != 'NP' or not mods:
				continue
			# outermost: the last, or the first when initial
			order = mods if a.kids[0] is mods[0] else mods[::-1]
			for m in order:
				if len(a.kids) > 1:
					a.kids = [R('NP', [b for b in a.kids if b is not m]), m]
					a = a.kids[0]
	elif name == 'POS-PART':
		for a in nodes:
			svp = [b for b in a.kids if b.func == 'SVP']
			hd = [b for b in a.kids if b.head]
			if svp and hd:
				svp, hd = svp[-1], hd[-1]
				if hd is not svp and hd.label != a.label:
					a.kids = [b for b in a.kids if b is not hd
							and b is not svp] + [R(hd.label, [hd, svp])]
	elif name == 'VP-FIN_WSJ':
		for a in nodes:
			if a.label == 'S' and not any(b.label.startswith('VP')
					for b in a.kids):
				vp = [b for b in a.kids if 'SBJ' not in b.funcs]
				if vp:
					a.kids = [b for b in a.kids if b not in vp] + [
							R('VP', vp)]
	elif name == 'VP-FIN_NEGRA':
		top = [a for a in root.kids if a.label == 'S']
		if len(top) > 1:
			return None
		elif not top:
			cs = [a for a in root.kids if a.label == 'CS']
			top = [a for a in cs[0].kids if a.label == 'S'] if cs else []
		else:
			s = top[0]
			while (not isinstance(s.kids[0], int) and len(s.kids) > 1
					and s.kids[0].func == 'DM'):
				s.kids = [s.kids[0], R('S', s.kids[1:])]
				s = s.kids[1]
			top = [s]
		for s in top:
			if isinstance(s.kids[0], int):
				continue
			vp = [a for a in s.kids if a.func in ('HD', 'AC', 'DA', 'MO', 'NG',
					'OA', 'OA2', 'OC', 'OG', 'PD', 'VO', 'SVP')]
			if vp and any(a.label.startswith('V') and a.label.endswith('FIN')
					for a in s.kids) and not (
						len(vp) == 1 and vp[0].label == 'VP'):
				s.kids = [a for a in s.kids if a not in vp] + [R('VP', vp)]
	elif name in ('addUnary', 'nladdunary'):
		tags, parents = (('n', 'vnw'), ('SMAIN', 'PP', 'INF')) if (
				name == 'nladdunary') else (('NN', 'PPER', 'PDS', 'PIS',
				'PRELS', 'CARD', 'PN'), ('S', 'VP', 'ROOT', 'DL'))
		for a in nodes:
			for b in a.kids:
				if a.label in parents and b.label in tags and not (
						b.label == 'PN' and len(b.kids) == 1):
					b.kids = [R(b.label, b.kids, 'HD'
							if name == 'addUnary' or b.func[:1].isupper()
							else 'hd', b.head)]
					b.label = 'NP'
	else:
		return None
	return root


@prop(structcases(), 4000, 50000, 'transformation changes the tree')
def structure(case):
	"""Words and tags are retained, reversible changes are reversed."""
	from discodop import treebanktransforms as tt
	name, lang, spec, sent = case
	tree = build(spec, sent)
	tt.transform(tree, sent, (name, ))
	gens.links(tree)
	after = gens.unmk(tree)
	changed = after != gens.canonspec(skel(spec))
	same(sorted(tree.leaves()), list(range(len(sent))), 'leaves')
	pos = {a[1][0]: a[0] for a in gens.nodesof(skel(spec)) if gens.ispre(a)}
	got = {a[0]: b for a, b in ((n, n.label) for n in
			tree.subtrees(lambda n: isinstance(n[0], int)))}
	if name != 'FANOUT':
		same({a: b for a, b in got.items()}, pos, 'POS tags')
	for a in tree.subtrees():
		check(len(a), 'node without children: %s' % a)
	ids = [a.source[tt.WORD] for a in tree.subtrees(
			lambda n: n.source and isinstance(n[0], type(tree)))]
	same(len(set(ids)), len(ids), 'unique node ids: %s' % ids)
	for a in tree.subtrees(lambda n: n.source):
		check(a.source[tt.WORD] != '--', 'no node id: %s' % a)
	ref = restructure(name, spec)
	if ref is not None:
		same(after, ref.spec(), 'after %s' % name)
	nodes = Node(spec).nodes()
	if name in ('addUnary', 'nladdunary'):
		def compare(x, y):
			same(tt.function(x), y.func, 'function of %s' % x)
			check(x.source is None or x.source[tt.TAG] == x.label,
					'tag of %s: %r' % (x, x.source))
			for a, b in zip(x, y.kids):
				if not isinstance(a, int):
					compare(a, b)
		compare(tree, ref)
	if name == 'addUnary':
		num = sum(a.cat() in ('NN', 'PPER', 'PDS', 'PIS', 'PRELS', 'CARD',
				'PN') and a.parent.cat() in ('S', 'VP', 'ROOT', 'DL')
				and not (a.cat() == 'PN' and len(a.kids) == 1) for a in nodes)
	elif name == 'nladdunary':
		num = sum(a.cat() in ('n', 'vnw') and a.parent.cat() in ('SMAIN', 'PP',
				'INF') for a in nodes)
	elif name in ('elimNKCJ', 'nlelimcnj', 'FANOUT'):
		num = 0
	else:
		num = None
	if name in ('elimNKCJ', 'nlelimcnj'):
		conj = 'cnj' if name == 'nlelimcnj' else 'CJ'
		for a, b in zip(nodes, tree.subtrees()):
			want = a.func
			if a.f() == conj:  # inherit
				want = tt.function(b.parent) or '--'
			elif a.f() == 'NK':
				want = 'HD'
			changed |= want != a.func
			if b.source:
				same(b.source[tt.FUNC], want, 'function of %s' % b)
	if num is not None:
		same(len(gens.nodesof(after)) - len(nodes), num, 'new nodes')
	tt.reversetransform(tree, sent, (name, ))
	gens.links(tree)
	same(sorted(tree.leaves()), list(range(len(sent))), 'leaves after reversal')
	if name in ('addUnary', 'nladdunary'):
		# unless ambiguous
		amb = any(not a.pre and len(a.kids) == 1 and a.cat() == 'NP'
				for a in nodes)
		if not amb:
			same(gens.unmk(tree), gens.canonspec(skel(spec)), 'reversed')
			same([b.source[tt.FUNC] if b.source else '--'
					for b in tree.subtrees()], [a.func or '--' for a in nodes],
					'functions')
	elif name in ('nlelimcnj', 'elimNKCJ', 'FANOUT') or (
			name in AMBIGUOUS and not gens.isdisc(skel(spec))
			and not any(AMBIGUOUS[name](a) for a in nodes)):
		same(gens.unmk(tree), gens.canonspec(skel(spec)), 'reversed')
	return [name] if changed else []




# --- coarse labels ---------------------------------------------------------------

@st.composite
def mapcases(draw):
	from_ = draw(st.sampled_from((('ptb', 'wsj'), ('negra', 'negra'),
			('alpino', 'lassy'), ('', ''))))
	level = draw(st.integers(0, 2))
	phrasal = {'ptb': 'S VP NP PP ADJP PRT|ADVP WHNP SBAR FRAG QP',
			'negra': 'S VP NP PP AP CNP CS AVP VZ CCP DL -- PN',
			'alpino': 'SMAIN PP INF NP CONJ MWU REL SSUB WHREL AP TI'}.get(
			from_[0], draw(st.sampled_from((
			'A B C D E', 'A B|C B|C|D E-E E AA')))).split()
	pos = 'x yy zzz'.split()
	mapping = None
	if not from_[0]:
		mapping = {}
		for a in phrasal:
			mapping.setdefault(draw(st.sampled_from('XYZ')), []).append(a)
	specs = draw(st.lists(gens.specs(root='ROOT', phrasal=phrasal, pos=pos),
			min_size=1, max_size=4))
	binarized = draw(st.booleans())
	if from_[0] and not binarized and draw(st.booleans()):  # annotation is not in the mapping

		def extend(a, root=False):
			if not gens.ispre(a):
				for b in a[1]:
					extend(b)
				if not root:
					a[0] += draw(st.sampled_from(('', '^rel', '-SBJ',
							'-SBJ^wh^foo')))
		for a in specs:
			extend(a, True)
	return from_[0], level, mapping, specs, binarized, draw(
			st.sampled_from((1, 2, 9)))


@prop(mapcases(), 800, 20000, 'some label is changed')
def collapse(case):
	from discodop import treebanktransforms as tt, treetransforms
	from discodop.tree import ParentedTree
	name, level, mapping, specs, binarized, horz = case
	tbmapping = ({a: set(b) for a, b in mapping.items()} if mapping
			else tt.MAPPINGS[name][level])
	if name:
		fine = [set().union(*tt.MAPPINGS[name][n].values()) for n in range(3)]
		same(sorted(map(sorted, fine)), [sorted(fine[0])] * 3, 'mappings cover')
		same(sum(map(len, tbmapping.values())), len(fine[0]),
				'coarse labels partition fine labels')
	coarse = {b: a for a in tbmapping for b in tbmapping[a]}
	work = [gens.mk(a, ParentedTree) for a in specs]
	if binarized:
		for a in work:
			treetransforms.binarize(a, horzmarkov=horz)
	before = [gens.unmk(a) for a in work]
	result, got = tt.collapselabels(work, None, tbmapping)
	check(result is work, 'trees should be modified in-place')

	def want(spec, root=True):
		label, kids = spec
		if root or gens.ispre(spec):
			new = label
		elif '|<' in label:
			a, b = label.split('|<', 1) if not label.startswith('PRT|ADVP|<'
					) else ('PRT|ADVP', label[10:])
			rest = b[:-1].split(',')
			new = '%s|<%s>' % (coarse.get(a, a), ','.join(
					coarse.get(x, x) for x in rest))
		else:
			new = coarse[label if label in coarse else re.split(
					r'\^|-(?=SBJ)', label)[0]]
		return [new, kids if gens.ispre(spec)
				else [want(a, False) for a in kids]]
	for a, b in zip(work, before):
		same(gens.unmk(a), want(b), 'collapsed')
		gens.links(a)
		for x, y in zip(gens.nodesof(gens.unmk(a)), gens.nodesof(b)):
			same(got.get(y[0]), x[0], 'mapping of %s' % y[0])
	same(got['Epsilon'], 'Epsilon', 'Epsilon')
	same(set(got), {x[0] for a in before for x in gens.nodesof(a)}
			| {'Epsilon'}, 'labels in mapping')
	return ['changed'] + ['binarized'] * binarized if [
			gens.unmk(a) for a in work] != before else []


# --- relational-realizational ------------------------------------------------------

@st.composite
def rrcases(draw):
	lang, spec, sent = draw(trees(lang=draw(st.sampled_from(
			('negra', 'lassy'))), over=dict(funcs='SB HD OA MO MO NK'.split(),
			phrasal='S NP VP PP'.split(), pos='NN V $.'.split())))
	spec[1] = 'TOPF'
	return (spec, sent, draw(st.sampled_from((None, 'MO', 'MO', 'NONE'))),
			draw(st.sampled_from(((), ('NK', ), None))),
			draw(st.sampled_from(((), ('$.', ), None))),
			draw(st.integers(0, 3)), draw(st.sampled_from((
				None, None, ['Nom', 'Dat', 'pv']))),
			draw(st.booleans()), draw(st.booleans()))


@prop(rrcases(), 800, 20000, 'tree with adjunctions or morphology percolated')
def relreal(case):
	"""Expected form of tree according to documentation."""
	from discodop import treebanktransforms as tt
	spec, sent, adj, igf, igc, levels, feats, left, right = case
	kwds = dict(morphlevels=levels, percolatefeatures=feats,
			adjunctionlabel=adj, ignorefunctions=igf, ignorecategories=igc,
			adjleft=left, adjright=right)
	tree = build(spec, sent)
	tree.source = ['#0', '--', spec[0], '--', '--', '']
	orig = gens.unmk(tree)
	result = tt.rrtransform(tree, **kwds)[0]
	same(gens.unmk(tree), orig, 'input modified')
	tags = set()

	def unify(morphs):
		sep = '.' if any('.' in a for a in morphs) else ','
		new = set()
		for a in morphs:
			new.update((re.search(r'\[(.*?)\]', a).group(1)
					if '[' in a else a).split(sep))
		if feats:
			new &= set(feats)
		return sep.join(sorted(new - {'*', '--'}))

	def want(a):
		"""returns: spec, morph, level"""
		label, _, morph, _, _, kids = a
		if isinstance(kids[0], int):
			morph = morph.replace('(', '[').replace(')', ']')
			return ['%s/%s' % (label, morph), kids], morph, levels
		arg = [b[1] for b in kids if b[1] != adj and b[1] not in (igf or ())
				and b[0] not in (igc or ())]
		isarg = [b[1] != adj and b[1] not in (igf or ())
				and b[0] not in (igc or ()) for b in kids]
		new, morphs, lvls = [], [], []
		for n, b in enumerate(kids):
			func = b[1]
			if func == adj:
				prv = next((c[1] for c, x in list(zip(kids, isarg))[:n][::-1]
						if x), '') if left else ''
				nxt = next((c[1] for c, x in list(zip(kids, isarg))[n + 1:]
						if x), '') if right else ''
				if prv or nxt:
					func = '%s:%s' % (prv, nxt)
					tags.add('adjunction')
			x, m, lvl = want(b)
			if m and lvl:
				morphs.append(m)
				lvls.append(lvl)
			new.append(['%s/%s' % (func, label), [x]])
		m, lvl = '', 0
		if morphs and label != 'ROOT':
			m, lvl = unify(morphs), max(lvls) - 1
		if m:
			tags.add('morph')
		return [label + ('-' + m if m else ''),
				[['%s/<%s>' % (label, ','.join(sorted(arg))), new]]], m, lvl
	spec[1] = '--'
	same(gens.unmk(result), want(spec)[0], 'transformed')
	back = tt.rrbacktransform(result, adjunctionlabel=adj)
	same(gens.unmk(back), orig, 'reversed')
	for a, b in zip(back.subtrees(), Node(spec).nodes()):
		same(a.source[tt.FUNC], b.func or '--', 'function of %s' % a)
		if b.pre:
			same(a.source[tt.MORPH], b.morph, 'morphology of %s' % a)
	return tags


# --- features ---------------------------------------------------------------------

@st.composite
def featcases(draw):
	lang, spec, sent = draw(trees())
	seq = draw(st.lists(st.sampled_from('abc'), min_size=1, max_size=6))
	return spec, sent, seq, draw(st.sampled_from(seq)), draw(st.booleans())


@prop(featcases(), 400, 10000, 'tree with function tags or morphology')
def helpers(case):
	from discodop import treebanktransforms as tt
	spec, sent, seq, elem, source = case
	same(tt.rindex(seq, elem), max(n for n, a in enumerate(seq) if a == elem),
			'rindex')
	tree = build(spec, sent, source)
	nodes = Node(spec, None, source).nodes()
	for a, b in zip(tree.subtrees(), nodes):
		same(tt.functions(a), b.fs(), 'functions')
		same(tt.function(a), b.f(), 'function')
		same(tt.strip(a.label), b.cat(), 'strip')
		same(tt.labels(a), [] if b.pre else [c.label for c in b.kids],
				'labels')
		if b.pre:
			same(list(tt.morphfeats(a)), b.feats(), 'morphological features')
		anc, x = [], b.parent
		while x is not None:
			anc.append(x.label)
			x = x.parent
		same([x.label for x in tt.ancestors(a) if x is not None], anc,
				'ancestors')
	same(sorted(tt.bracketings(tree)), sorted((b.label, tuple(sorted(
			gens.leavesof(b.spec())))) for b in nodes if not b.pre),
			'bracketings')
	same(tt.expandpresets(['x', 'wsj', 'PUNCT']), ['x', 'PTBbrackets', 'S-WH',
			'VP-HD', 'S-INF', 'PUNCT'], 'presets')
	return ['tags'] if any(b.fs() or b.feats() for b in nodes) else []


# --- syntactic complexity ----------------------------------------------------------

@st.composite
def levelcases(draw):
	lang, spec, sent = draw(trees(lang='lassy', over=dict(
			phrasal=draw(st.sampled_from(('SMAIN TI INF',
				'SMAIN NP REL CP TI INF SSUB WHSUB PP'))).split(),
			pos='ww vg n lid'.split(),
			funcs=draw(st.sampled_from(('su vc vc obj1 hd',
				'su mod obj1 vc hd body obcomp sup hd hd body'))).split(),
			morph=draw(st.sampled_from(('ww(inf,vrij) ww(vd) ww(pv)',
				'ww(inf,vrij) n(soort,ev) ww(pv,tgw) vg(neven) vg(onder) '
				'lid() ww(vd)'))).split())))

	def fix(a):  # provisional subject is not a verb or clause
		if a[1] == 'sup' and a[0] in ('ww', 'REL', 'CP', 'WHSUB'):
			a[1] = 'mod'
		for b in a[5]:
			if not isinstance(b, int):
				fix(b)
	fix(spec)
	nodes = Node(spec).nodes()
	num = len(nodes)
	likely = [(nodes.index(b), nodes.index(a), 'su') for a in nodes
			if a.f() == 'vc' and a.cat() in ('TI', 'INF')
			for b in a.parent.kids if b.f() in ('su', 'obj1')]
	sec = draw(st.lists(st.tuples(st.integers(1, num), st.integers(1, num),
			st.sampled_from(('su', 'su', 'obj1'))), max_size=6))
	if likely:
		sec.insert(draw(st.integers(0, len(sec))),
				draw(st.sampled_from(likely)))
		if draw(st.booleans()):  # a second edge of the same node
			sec.insert(0, (likely[0][0], draw(st.integers(1, num)), 'su'))
	return spec, sent, sec


@prop(levelcases(), 600, 20000, 'level above 0')
def complexity(case):
	"""D-level: the highest level for which a condition holds."""
	from discodop import treebanktransforms as tt
	spec, sent, sec = case
	tree = build(spec, sent)
	nodes = Node(spec).nodes()
	nodes[0].func = ''
	parents = list(tree.subtrees())
	edges = set()
	for a, b, func in sec:
		if a < len(nodes) and b < len(nodes) and not nodes[b].pre:
			parents[a].source = parents[a].source + [
					func, parents[b].source[tt.WORD].lstrip('#')]
			edges.add((id(nodes[a]), id(nodes[b]), func))
	pre = [a for a in nodes if a.pre]
	f = lambda n: n.f() if n is not None else ''  # noqa
	cat = lambda n: n.cat() if n is not None else ''  # noqa
	neven = [a for a in pre if a.cat() == 'vg' and 'neven' in a.feats()]
	pv = [a for a in pre if a.cat() == 'ww' and 'pv' in a.feats()]

	def coindexed(sib):
		return any(n.f() == 'vc' and n.cat() in ('TI', 'OTI', 'INF')
				and any(f(a) == sib and (id(a), id(n), 'su') in edges
					for a in n.parent.kids) for n in nodes)
	want = 0
	if len(pv) - len(neven) > 2:
		want = 7
	elif any(a.cat() == 'REL' and a.f() == 'mod' and f(a.parent) == 'su'
			or a.cat() in ('CP', 'WHSUB', 'WHREL', 'TI', 'OTI', 'INF')
			and a.f() == 'su'
			or a.cat() == 'ww' and cat(a.parent) == 'NP'
			and f(a.parent) == 'su' for a in nodes):
		want = 6
	elif any(a.cat() == 'vg' and 'onder' in a.feats() and a.lemma != 'dat'
			for a in pre):
		want = 5
	elif any(a.f() == 'obcomp' for a in nodes) or coindexed('obj1'):
		want = 4
	elif any(a.cat() == 'REL' and a.f() == 'mod' and f(a.parent) == 'obj1'
			or a.cat() == 'ww' and cat(a.parent) == 'NP'
			and f(a.parent) == 'obj1'
			or a.cat() in ('CP', 'WHSUB') and a.f() == 'vc'
			or a.f() == 'sup' for a in nodes):
		want = 3
	elif neven:
		want = 2
	elif coindexed('su'):
		want = 1
	same(tt.dlevel(tree), want, 'D-level')
	return ['level%d' % want] if want else []
