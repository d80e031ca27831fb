From 053e4b761444ee8d556575b01df0dbb99f48b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 001/172] fix: refuse duplicate subtrees in ParentedTree before
 changing anything

---
 discodop/tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..1b08546 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -686,6 +686,7 @@ class ParentedTree(Tree):
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i, dry_run=True)
+		self._checkdistinct(self.children)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i)
@@ -783,6 +784,12 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkdistinct(self, children):
+		"""Check that no subtree occurs more than once in ``children``."""
+		ids = [id(child) for child in children if isinstance(child, Tree)]
+		if len(set(ids)) != len(ids):
+			raise ValueError('Cannot insert the same subtree multiple times.')
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -823,6 +830,7 @@ class ParentedTree(Tree):
 			for i, child in enumerate(value):
 				if isinstance(child, Tree):
 					self._setparent(child, start + i, dry_run=True)
+			self._checkdistinct(value)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
 				if isinstance(self[i], Tree):
-- 
2.43.0


From 9fc4929f3735384aa2e475cb11178768989c5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 002/172] fix: ImmutableTree.insert must not modify the tree

---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 1b08546..ba208d5 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -639,6 +639,9 @@ class ImmutableTree(Tree):
 	def append(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From 8c77e7fb4ef72ea96dab613e983c9fe0ad2498c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 003/172] fix: DiscTree.__eq__ should compare all children, not
 only the first terminal

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index ba208d5..3652211 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -980,7 +980,8 @@ class DiscTree(ImmutableTree):
 			if istree != isinstance(b, Tree):
 				return False
 			elif not istree:
-				return self.sent[a] == other.sent[b]
+				if self.sent[a] != other.sent[b]:
+					return False
 			elif not a.__eq__(b):
 				return False
 		return True
-- 
2.43.0


From 6acc73e96180390663b3f0ee33bcf2f4f48bf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 004/172] fix: brackettree should detect discbracket format
 when there are spaces between brackets

---
 discodop/tree.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3652211..d48b223 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1900,6 +1900,7 @@ def brackettree(treestr, detectdisc=True):
 	:param detectdisc: if True, enable discbracket detection;
 		if False, force bracket format.
 	:returns: (tree, sent) tuple of ParentedTree and list of str."""
+	treestr = SUPERFLUOUSSPACERE.sub(')', treestr)
 	# bracket: terminals are not all indices
 	if not detectdisc or STRTERMRE.search(treestr):
 		sent, cnt = [], count()
@@ -1909,8 +1910,7 @@ def brackettree(treestr, detectdisc=True):
 			sent.append(unescape(x))
 			return next(cnt)
 
-		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)',
-				SUPERFLUOUSSPACERE.sub(')', treestr)),
+		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)', treestr),
 				parse_leaf=substleaf)
 	else:  # discbracket: terminals have indices
 		sent = {}
@@ -1922,9 +1922,7 @@ def brackettree(treestr, detectdisc=True):
 			sent[idx] = unescape(word)
 			return idx
 
-		tree = ParentedTree.parse(
-				SUPERFLUOUSSPACERE.sub(')', treestr),
-				parse_leaf=substleaf)
+		tree = ParentedTree.parse(treestr, parse_leaf=substleaf)
 		sent = [sent.get(n, None) for n in range(max(sent) + 1)]
 	return tree, sent
 
-- 
2.43.0


From 9b89c2c805549340d85ace2b1ac27fa3049e076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 005/172] fix: DrawTree without sentence showed wrong indices
 for discontinuous trees

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index d48b223..02a7350 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1067,7 +1067,7 @@ class DrawTree(object):
 			leaves = self.tree.leaves()
 			if (leaves and all(self.tree.subtrees())
 					and all(isinstance(a, int) for a in leaves)):
-				self.sent = ['%d' % a for a in leaves]
+				self.sent = ['%d' % a for a in range(max(leaves) + 1)]
 			else:
 				# this deals with empty nodes (frontier non-terminals)
 				# and multiple/mixed terminals under non-terminals.
-- 
2.43.0


From d311bf1eeff62819e412f7b2a22ce86173472c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 006/172] fix: DrawTree.text(maxwidth=None) raised TypeError

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 02a7350..3d92b1d 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1564,7 +1564,7 @@ class DrawTree(object):
 		maxchildcol = {}
 		childcols = defaultdict(set)
 		labels = {}
-		wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
+		wrapre = maxwidth and re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
 				maxwidth - 4, maxwidth, maxwidth))
 		# collect labels and coordinates
 		for a in self.nodes:
-- 
2.43.0


From bbfd639e21c7d96da24107cfd7b4a29e7210347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 007/172] fix: BracketCorpusReader should unescape parentheses
 in words

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..ba8a2a2 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -240,7 +240,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) or '' for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From 96583f7d2f4f584d430863e579103e689e343ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 008/172] fix: write Alpino comments where they are read

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index ba8a2a2..58510ab 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -862,10 +862,11 @@ def writealpinotree(tree, sent, key, commentstr):
 	addchildren(tree, sent, result, count())
 	sentence = ElementTree.SubElement(result, 'sentence')
 	sentence.text = ' '.join(sent)
-	comment = ElementTree.SubElement(result, 'comment')
+	comments = ElementTree.SubElement(result, 'comments')
+	comment = ElementTree.SubElement(comments, 'comment')
 	comment.text = ('%s|%s' % (key, commentstr)) if commentstr else str(key)
 	result.text = sentence.tail = '\n  '
-	result.tail = comment.tail = '\n'
+	result.tail = comments.tail = '\n'
 	return ElementTree.tostring(result).decode('utf8')  # hack
 
 
-- 
2.43.0


From 23bce42baaa6309aa5e168e66282e37a5492c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 009/172] fix: Tiger XML reader should accept terminals without
 lemma or morph attribute

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 58510ab..eda512d 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -383,9 +383,9 @@ class TigerXMLCorpusReader(CorpusReader):
 		for term in xmlblock.find('graph').find('terminals'):
 			fields = nodes.setdefault(term.get('id'), 6 * [None])
 			fields[WORD] = term.get('word')
-			fields[LEMMA] = term.get('lemma')
+			fields[LEMMA] = term.get('lemma', '--')
 			fields[TAG] = term.get('pos')
-			fields[MORPH] = term.get('morph')
+			fields[MORPH] = term.get('morph', '--')
 			fields[PARENT] = '0' if term.get('id') == root else None
 			fields[FUNC] = '--'
 			nodes[term.get('id')] = fields
-- 
2.43.0


From 2d16764c5aabc84516007efe67572e1f1961d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 010/172] fix: Tiger XML reader lost functions of nodes listed
 after their parent

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index eda512d..cc82aee 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -397,7 +397,9 @@ class TigerXMLCorpusReader(CorpusReader):
 				ntid = nt.get('id').split('_')[-1]
 				fields[WORD] = '#' + ntid
 				fields[TAG] = nt.get('cat')
-				fields[LEMMA] = fields[MORPH] = fields[FUNC] = '--'
+				fields[LEMMA] = fields[MORPH] = '--'
+				if fields[FUNC] is None:  # may precede the edge to this node
+					fields[FUNC] = '--'
 			for edge in nt:
 				idref = edge.get('idref')
 				nodes.setdefault(idref, 6 * [None])
-- 
2.43.0


From 56b6be0417646df8547d59999fb096ec04f38ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 011/172] fix: number sentences consecutively across bracket
 files

Trees of all but the last file were silently lost in trees(), sents(), and
blocks(), because every file was numbered from 1.
---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index cc82aee..5f870ec 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -217,9 +217,11 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		n = count(1)  # number sentences consecutively across files
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for line in inp:
+					yield next(n), line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From db384267e2e3a873036ac07ecfb107bb83947137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 012/172] fix: handlefunctions should skip lemma nodes as it
 does morphology nodes

With lemmas='between', the labels of the inserted nodes were lost with
functions='replace', and spurious nodes added with functions='between'.
---
 discodop/treebank.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 5f870ec..6e648a6 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -579,7 +579,7 @@ def exporttree(block, functions=None, morphology=None, lemmas=None):
 	for n, source in enumerate(table):
 		children[source[PARENT]].append((n, source))
 	tree = ParentedTree('ROOT', getchildren('0'))
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, '\n'.join(block) + '\n')
 
 
@@ -653,7 +653,7 @@ def alpinotree(block, functions=None, morphology=None, lemmas=None):
 	comment = xmlblock.find('comments/comment')  # NB: only use first comment
 	if comment is not None:
 		comment = comment.text
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, rawblock)
 
 
@@ -702,7 +702,7 @@ def ftbtree(block, functions=None, morphology=None, lemmas=None):
 	tree = getsubtree(xmlblock)
 	comment = ' '.join('%s=%r' % (a, xmlblock.get(a))
 			for a in ('nb', 'textid', 'argument', 'author', 'date'))
-	handlefunctions(functions, tree, morphology=morphology)
+	handlefunctions(functions, tree, morphology=morphology, lemmas=lemmas)
 	return Item(tree, sent, comment, rawblock)
 
 
@@ -934,13 +934,15 @@ def deplen(deps):
 	return (total, float(len(deps) - 1))  # discount ROOT
 
 
-def handlefunctions(action, tree, pos=True, root=False, morphology=None):
+def handlefunctions(action, tree, pos=True, root=False, morphology=None,
+		lemmas=None):
 	"""Add function tags to phrasal labels e.g., 'VP' => 'VP-HD'.
 
 	:param action: one of {None, 'add', 'replace', 'remove'}
 	:param pos: whether to add function tags to POS tags.
 	:param root: whether to add function tags to the root node.
-	:param morphology: if morphology='between', skip those nodes."""
+	:param morphology: if morphology='between', skip those nodes.
+	:param lemmas: if lemmas='between', skip those nodes."""
 	if action in (None, 'leave'):
 		return
 	for node in tree.subtrees():
@@ -951,6 +953,9 @@ def handlefunctions(action, tree, pos=True, root=False, morphology=None):
 					node.label = node.label[:x]
 		elif morphology == 'between' and not isinstance(node[0], Tree):
 			continue
+		elif (lemmas == 'between' and node.source is None
+				and node is not tree):  # nodes inserted by handlemorphology()
+			continue
 		elif (not root or action == 'between') and node is tree:  # skip root
 			continue
 		elif pos or isinstance(node[0], Tree):
-- 
2.43.0


From 06bf003b97e47a7208de89c34d41fd299872b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 013/172] fix: dependency length should not count the root

The label of the dependency of the root is 'root' instead of 'ROOT'; there may
be more than one such dependency.
---
 discodop/treebank.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 6e648a6..093688c 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -929,9 +929,9 @@ def deplen(deps):
 	"""Compute dependency length from result of ``dependencies()``.
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
-	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
-	return (total, float(len(deps) - 1))  # discount ROOT
+	lengths = [abs(a - b) for a, label, b in deps
+			if label != 'root']  # discount root
+	return (sum(lengths), float(len(lengths)))
 
 
 def handlefunctions(action, tree, pos=True, root=False, morphology=None,
-- 
2.43.0


From ea8b651407aff95a12cb89d1a5ab73bdf288491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 014/172] fix: head rules with an empty list of heads were
 ignored

As documented, the leftmost or rightmost child should be chosen.
---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index d16d494..e108527 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -47,7 +47,7 @@ def readheadrules(filename):
 	with io.open(filename, encoding='utf8') as inp:
 		for line in inp:
 			line = line.strip().upper()
-			if line and not line.startswith("%") and len(line.split()) > 2:
+			if line and not line.startswith("%") and len(line.split()) > 1:
 				try:
 					label, direction, heads = HEADRULERE.match(line).groups()
 				except AttributeError:
-- 
2.43.0


From b46b9abf00b2a6819b80413d914baba7e649c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 015/172] fix: head and modifier rules are case insensitive for
 the constituent as well

Labels of children are matched in upper case, but the rules for constituents
with lower case in their label (e.g., all of those for FTB) never applied.
---
 discodop/heads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e108527..656a80a 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -92,7 +92,7 @@ def headfinder(tree, headrules, headlabels=frozenset({'HD'})):
 	# apply heuristic rules:
 	head = None
 	children = tree
-	for direction, heads in headrules.get(tree.label, []):
+	for direction, heads in headrules.get(tree.label.upper(), []):
 		if direction.startswith('LEFT'):
 			children = tree
 		elif direction.startswith('RIGHT'):
@@ -153,7 +153,8 @@ def markmodifiers(tree, modifierrules):
 		if child.type == HEAD:
 			continue
 		child.type = COMPLEMENT
-		applicablerules = modifierrules.get(tree.label.split('-', 1)[0], []
+		applicablerules = modifierrules.get(
+				tree.label.split('-', 1)[0].upper(), []
 				) + modifierrules.get('*', [])
 		for mod in applicablerules:
 			if ((child.label.split('-', 1)[0].upper() == mod.split('-', 1)[0]
-- 
2.43.0


From 76a7ea7cf8e9b50c3e5423e88015b018fec645e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 016/172] fix: headstats counted position of head from the
 right one too low

---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index 656a80a..3e3eb1a 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -199,7 +199,7 @@ def headstats(trees):
 				if b.type == HEAD:
 					heads[a.label][b.label] += 1
 					pos1[a.label][n] += 1
-					pos2[a.label][len(a) - (n + 2)] += 1
+					pos2[a.label][len(a) - (n + 1)] += 1
 					break
 			else:
 				unknown[a.label].update(b.label for b in a)
-- 
2.43.0


From 4c43f5c9381bba04e5472ce4899e923b8200469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 017/172] fix: binarize with tailmarker was not reversible

The marker came between '|' and '<', so that such nodes were not recognized by
unbinarize; saveheads() marked the artificial node instead of the head.
---
 discodop/heads.py          | 7 +++++--
 discodop/treetransforms.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index 3e3eb1a..c368469 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -172,8 +172,11 @@ def markmodifiers(tree, modifierrules):
 def saveheads(tree, tailmarker):
 	"""Infer head from binarization and store."""
 	if tailmarker:
-		for node in tree.subtrees(lambda n: tailmarker in n.label):
-			node.type = HEAD
+		# the marked node is artificial and introduces the head;
+		# it may be followed by a fan-out marker.
+		tailre = re.compile(r'\|<.*%s(?:_[0-9]+)?$' % re.escape(tailmarker))
+		for node in tree.subtrees(lambda n: tailre.search(n.label)):
+			node[-1].type = HEAD
 	else:
 		# assume head-outward binarization; the last binarized node has the head.
 		for node in tree.subtrees(lambda n: '|<' in n.label
diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..5189138 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				newnode.label = ''.join((origlabel, childchar, mark, marktail))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From 2d87a2f68804d119023c4030f22ddf16a8d9e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 018/172] fix: labels of left-factored binarization included
 siblings not dominated

With infinite horizontal context, every artificial node of a left-factored
constituent had the same label, introducing new generalizations.
---
 discodop/treetransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 5189138..6c0bb20 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -227,7 +227,9 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
 								if a not in filterlabels) + ';'
-				siblings += ','.join([a for a in childlabels[start:]
+				# left-factored: only siblings dominated by this node
+				stop = None if factor == 'right' or headoutward else end
+				siblings += ','.join([a for a in childlabels[start:stop]
 						if a not in filterlabels][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
-- 
2.43.0


From 400a30230492bee94b46401233dd11f70b3f4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 019/172] fix: collapseunary and its inverse failed on trees
 with parent pointers

---
 discodop/treetransforms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 6c0bb20..a82fbe9 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -301,10 +301,11 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
-						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+						tmp = node[:]
+						node[:] = []  # detach, may have parent pointers
+						node[:] = [treeclass(
+								node.label[unaryindex + 1:], tmp)]
 						node.label = node.label[:unaryindex]
-						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
 			agenda.extend((child, parent) for child in node)
 	return tree
@@ -330,7 +331,10 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				child = node.pop()
+				grandchildren = list(child)
+				child[:] = []  # detach, in case of trees with parent pointers
+				node[:] = grandchildren
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From c967afe19f8082c24a557ed87d17e69847bcd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 020/172] fix: splitdiscnodes should mark the component with
 the head child

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index a82fbe9..6b06510 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -517,7 +517,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in childsubset)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From 1cbc9defc244287d15946952ea3d1d776b938c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 021/172] fix: punctlower lost punctuation not inside any
 constituent; punctprune failed on empty sentence

---
 discodop/punctuation.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..a84e595 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -66,7 +66,7 @@ def punctprune(tree, sent):
 		sent[i] = None
 		i += 1
 	i = len(sent) - 1
-	while i < len(sent) and sent[i] in PRUNEPUNCT:
+	while i >= 0 and sent[i] in PRUNEPUNCT:
 		sent[i] = None
 		i -= 1
 	if tree is None:
@@ -100,22 +100,26 @@ def punctlower(tree, sent):
 
 		Recurses top-down on suitable candidates."""
 		num = node.leaves()[0]
-		for i, child in enumerate(sorted(candidate, key=lambda x: x.leaves())):
+		for child in sorted(candidate, key=lambda x: x.leaves()):
 			if not child or isinstance(child[0], int):
 				continue
 			termdom = child.leaves()
-			if num < min(termdom):
-				candidate.insert(i + 1, node)
-				break
-			elif num < max(termdom):
+			if min(termdom) < num < max(termdom):
 				lower(node, child)
 				break
-
-	for a in tree.treepositions('leaves'):
-		if ispunct(sent[tree[a]], tree[a[:-1]]):
-			b = tree[a[:-1]]
-			del tree[a[:-1]]
-			lower(b, tree)
+		else:
+			candidate.append(node)
+
+	punct = [a for a in tree.subtrees()
+			if a and isinstance(a[0], int) and ispunct(sent[a[0]], a)]
+	for node in punct:
+		parent = node.parent
+		parent.pop(node.parent_index)
+		while not parent and parent is not tree:  # prune empty ancestors
+			parent, child = parent.parent, parent
+			del parent[child.parent_index]
+	for node in punct:
+		lower(node, tree)
 
 
 def punctraise(tree, sent, rootpreterms=False):
-- 
2.43.0


From f27daa31c8a42e92eeb3d55d37b121eacafc697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 022/172] fix: OrderedSet should not contain duplicates

---
 discodop/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..d033ed8 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -154,7 +154,7 @@ class OrderedSet(Set):
 
 	def __init__(self, iterable=None):
 		if iterable:
-			self.seq = tuple(iterable)
+			self.seq = tuple(dict.fromkeys(iterable))
 			self.theset = frozenset(self.seq)
 		else:
 			self.seq = ()
-- 
2.43.0


From 8ab080a8964e506248da9c81f2115524823a734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 023/172] fix: slice_bounds with allow_step raised
 AttributeError

---
 discodop/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index d033ed8..ae60342 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -122,15 +122,15 @@ def slice_bounds(seq, slice_obj, allow_step=False):
 		If it does, then return a tuple (start, stop, step)."""
 	start, stop = (slice_obj.start, slice_obj.stop)
 	if allow_step:
-		slice_obj.step = 1 if slice_obj.step is None else slice_obj.step
+		step = 1 if slice_obj.step is None else slice_obj.step
 		# Use a recursive call without allow_step to find the slice
 		# bounds. If step is negative, then the roles of start and
 		# stop (in terms of default values, etc), are swapped.
-		if slice_obj.step < 0:
+		if step < 0:
 			start, stop, _ = slice_bounds(seq, slice(stop, start))
 		else:
 			start, stop, _ = slice_bounds(seq, slice(start, stop))
-		return start, stop, slice_obj.step
+		return start, stop, step
 	elif slice_obj.step not in (None, 1):
 		raise ValueError('slices with steps are not supported by %s' %
 				seq.__class__.__name__)
-- 
2.43.0


From e424e6ae48ac3725dccb154a9ecc4d37fe9de031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 024/172] fix: PyAgenda.peekitem lost items; clear did not
 reset length

---
 discodop/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index ae60342..5a1ae49 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -246,15 +246,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and self.heap[0].count == INVALID:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
@@ -288,6 +284,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
-- 
2.43.0


From 58f8af533699dd01acbab1f10c7ef09346172aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 025/172] fix: read_bitpar_grammar ignored the lexicon

---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..b1ae424 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -136,13 +136,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = [float(w) for w in weights]
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = [int(w) for w in weights]
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From 37f43e35f51525a60a274916927e5eaabc941f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 026/172] fix: command 'discodop gen' did not accept arguments,
 gzip or bitpar files

---
 discodop/gen.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index b1ae424..e93e480 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,11 +2,10 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
@@ -244,24 +243,26 @@ def test():
 
 def main():
 	"""Load a grammar from a text file and generate 20 sentences."""
-	if "--test" in sys.argv:
+	args = sys.argv[2:]
+	if "--test" in args:
 		test()
 		return
 	start = "ROOT"
-	if "-s" in sys.argv:
-		i = sys.argv.index("-s")
-		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
-	verbose = "--verbose" in sys.argv
+	if "-s" in args:
+		i = args.index("-s")
+		start = args[i + 1]
+		args[i:i + 2] = []
+	verbose = "--verbose" in args
 	if verbose:
-		sys.argv.remove('--verbose')
-	if len(sys.argv) != 3:
-		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
+		args.remove('--verbose')
+	if len(args) != 2:
+		print("incorrect number of arguments:", args, file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(args[0]) as inp:
+		rules = inp.readlines()
+	with openread(args[1]) as inp:
+		lexicon = inp.readlines()
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
 	except ValueError:
-- 
2.43.0


From e8670240cbf5dd1a41365631b65a99c7d948f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 027/172] fix: sumrules assigned weights to the wrong rules,
 and did not sum rules sorted by LHS

---
 discodop/grammar.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..40a46e7 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1204,28 +1204,26 @@ def stripweight(line):
 
 
 def sumrules(iterable, n):
-	"""Given a sorted iterable of rules, sum weights of identical rules."""
+	"""Given rules sorted by LHS, sum weights of identical rules."""
 	prev = None
-	w1 = 0.0
+	rules = {}
 	for line in iterable:
 		match = RULERE.match(line)
-		rule = match.group('RULE1') or match.group('RULE2')
-		if rule != prev:
-			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
-				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
-			prev = rule
-			w1 = 0.0
+		lhs = match.group('LHS1') or match.group('LHS2')
+		if lhs != prev:
+			for fmt, rule in rules:
+				yield fmt % dict(rule=rule, weight=rules[fmt, rule] / n)
+			prev = lhs
+			rules = {}
 		if match.group('RULE1') is None:
-			w1 += convertweight(match.group('FREQ2'))
+			key = '%(weight)g\t%(rule)s\n', match.group('RULE2')
+			weight = match.group('FREQ2')
 		else:
-			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
-	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+			key = '%(rule)s\t%(weight)g\n', match.group('RULE1')
+			weight = match.group('WEIGHT1')
+		rules[key] = rules.get(key, 0.0) + convertweight(weight)
+	for fmt, rule in rules:
+		yield fmt % dict(rule=rule, weight=rules[fmt, rule] / n)
 
 
 def sumlex(iterable, n):
-- 
2.43.0


From 9f1433490d0179b63b29fe437a0edb053e52a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 028/172] fix: recognize rules with punctuation labels and with
 large or hexadecimal weights

---
 discodop/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 40a46e7..a6887ae 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -13,10 +13,11 @@ from .treebank import LEAVESRE
 from .util import openread, merge as utilmerge
 from functools import reduce  # pylint: disable=redefined-builtin
 
+NUMBER = r'(?:0x[.0-9a-f]+p[-+]?[0-9]+|[0-9]+(?:\.[0-9]*)?(?:e[-+]?[0-9]+)?)'
 RULERE = re.compile(
 		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*)\t'
-		r'(?P<WEIGHT1>(?P<FREQ1>[-.e0-9]+)(?:\/[0-9]+)?)$'
-		r'|(?P<FREQ2>[-.e0-9]+)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')
+		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/[0-9]+(?:\.[0-9]+)?)?)$'
+		r'|(?P<FREQ2>%s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$' % (NUMBER, NUMBER))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From 6aa33740d76fa3b522188dc5b7e0a47b1cf42e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 029/172] fix: grammarstats could not read files; truncated
 frequency mass

---
 discodop/grammar.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index a6887ae..8bca57a 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1156,18 +1156,17 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+	for line in openread(filename):
 		match = RULERE.match(line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				print('%s\t%d\t%.12g' % (label, cnt, freq))
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-		freq += float((match.group('FREQ1') or match.group('FREQ2')))
+		freq += convertweight(match.group('FREQ1') or match.group('FREQ2'))
 	if label is not None:
-		print('%s\t%d\t%g' % (label, cnt, freq))
+		print('%s\t%d\t%.12g' % (label, cnt, freq))
 
 
 def splitweight(weight):
-- 
2.43.0


From 121247ced0d4d7a8bac9462dc8d7a931f8f59e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 030/172] fix: addindices turned frontier non-terminals into
 words

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 8bca57a..f55e6a7 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1275,7 +1275,8 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(
+			lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''), frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From 283d9ec87dfdabdfe4c95ac84bb92eb8b725593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 031/172] fix: DOP reduction should not count root nodes twice

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f55e6a7..f1bf09b 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -806,7 +806,8 @@ def nodefreq(tree, dectree, subtreefd, nonterminalfd):
 	>>> fd == Counter({'S': 4, 'NP': 1, 'VP': 1, 'NP@1-0': 1, 'VP@1-1': 1})
 	True"""
 	nonterminalfd[tree.label] += 1
-	nonterminalfd[dectree.label] += 1
+	if dectree.label != tree.label:
+		nonterminalfd[dectree.label] += 1
 	if isinstance(tree[0], Tree):
 		n = reduce(mul, (nodefreq(x, ux, subtreefd, nonterminalfd) + 1
 			for x, ux in zip(tree, dectree)))
-- 
2.43.0


From f9eb6883efa5965e46335d4046277109c698ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 032/172] fix: Bonnema weights of DOP reduction ignored
 frequency and arity of rules

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f1bf09b..c3d2721 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -171,7 +171,8 @@ def dopreduction(trees, sents, packedgraph=False, decorator=None,
 		shortest = 1 if '@' in r[0] else 1 / 2
 		# Goodman (2003, eq. 8.22). Prob. of fragment is reduced by factor of 2
 		# for each non-root non-terminal it contains.
-		bon = 1 / 4 if '@' in r[0] else 1 / (4 * ntfd[r[0]])
+		bon = 2 ** -(len(r) - 1 - ('Epsilon' in r)) * (
+				1 if '@' in r[0] else freq / ntfd[r[0]])
 		return ((r, yf), rfe), ewe, shortest, bon
 
 	rules = sortgrammar(rules.items())
-- 
2.43.0


From 18a1bdff26714221c304fdd0c7c8d57d98c974b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 033/172] fix: evaluation summary counted repeated brackets
 once

---
 discodop/eval.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..0187a80 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -152,7 +152,8 @@ class Evaluator(object):
 			else:
 				print('%s  %6.2f  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / len(acc.goldb),
+					100 * sum(acc.goldbcat[cat].values())
+						/ sum(acc.goldb.values()),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
@@ -188,7 +189,7 @@ class Evaluator(object):
 				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
 					nozerodiv(lambda: sum(acc.goldbfunc[cat].values())
-							/ len(acc.goldfun)),
+							/ sum(acc.goldfun.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbfunc[cat], acc.candbfunc[cat])),
 					nozerodiv(lambda: precision(
@@ -250,12 +251,14 @@ class Evaluator(object):
 				'longest sentence:          %6d' % (acc.maxlenseen)]
 			if gdiscbrackets or discbrackets:
 				msg.extend(['gold brackets (disc.):     %6d (%d)' % (
-							len(acc.goldb), gdiscbrackets),
+							sum(acc.goldb.values()), gdiscbrackets),
 						'cand. brackets (disc.):    %6d (%d)' % (
-							len(acc.candb), discbrackets)])
+							sum(acc.candb.values()), discbrackets)])
 			else:
-				msg.extend(['gold brackets:             %6d' % len(acc.goldb),
-					'cand. brackets:            %6d' % len(acc.candb)])
+				msg.extend(['gold brackets:             %6d' % (
+							sum(acc.goldb.values())),
+						'cand. brackets:            %6d' % (
+							sum(acc.candb.values()))])
 			msg.extend([
 					'labeled recall:            %s' % (
 						nozerodiv(lambda: recall(acc.goldb, acc.candb))),
@@ -292,9 +295,9 @@ class Evaluator(object):
 			'longest sentence:          %6d     %6d' % (
 					acc40.maxlenseen, acc.maxlenseen),
 			'gold brackets:             %6d     %6d' % (
-					len(acc40.goldb), len(acc.goldb)),
+					sum(acc40.goldb.values()), sum(acc.goldb.values())),
 			'cand. brackets:            %6d     %6d' % (
-					len(acc40.candb), len(acc.candb))]
+					sum(acc40.candb.values()), sum(acc.candb.values()))]
 		if gdiscbrackets or discbrackets:
 			msg.extend(['disc. gold brackets:       %6d     %6d' % (
 					gdiscbrackets40, gdiscbrackets),
-- 
2.43.0


From 4d8ccb2b858f75c09b372cdc6bd264cae84f8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 034/172] fix: EQ_LABEL was not applied to root node

---
 discodop/eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/eval.py b/discodop/eval.py
index 0187a80..a1ac258 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -778,6 +778,7 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 	:returns: an immutable, transformed copy of ``tree``."""
 	leaves = list(range(len(sent)))
 	posnodes = []
+	tree.label = param['EQ_LABEL'].get(tree.label, tree.label)
 	for a in reversed(list(tree.subtrees(
 			lambda n: n and isinstance(n[0], Tree)))):
 		for n, b in list(zip(count(), a))[::-1]:
-- 
2.43.0


From 316a18ff492ecfc476a63d45663d6858adb6a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 035/172] fix: sentence without words made leaf-ancestor and
 tree-distance scores NaN

---
 discodop/eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index a1ac258..b3ff942 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -9,6 +9,7 @@ distance, unlabeled dependencies), as well as facilities for error analysis.
 # pylint: disable=cell-var-from-loop
 import io
 import sys
+from math import isnan
 from getopt import gnu_getopt, GetoptError
 from decimal import Decimal, InvalidOperation
 from collections import defaultdict, Counter  # == multiset
@@ -568,9 +569,10 @@ class EvalAccumulator(object):
 		self.candpos.extend(pair.cpos)
 		self.goldfun.update((pair.n, a) for a in pair.goldfun.elements())
 		self.candfun.update((pair.n, a) for a in pair.candfun.elements())
-		if pair.lascore is not None:
+		# NB: these are NaN when there are no words after deletion
+		if not isnan(pair.lascore):
 			self.lascores.append(pair.lascore)
-		if pair.ted is not None:
+		if not isnan(pair.ted):
 			self.dicenoms += pair.ted
 			self.dicedenoms += pair.denom
 		if pair.gdep is not None:
-- 
2.43.0


From c5bc0f39a9eecaf3d748a676b0847d07e036eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 036/172] fix: DISC_ONLY in evaluation parameter file was
 ignored

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index b3ff942..4c5aa7f 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -626,7 +626,7 @@ def main():
 	parsesfile = args[1]
 	param = readparam(args[2] if len(args) == 3 else None)
 	param['CUTOFF_LEN'] = int(opts.get('--cutofflen', param['CUTOFF_LEN']))
-	param['DISC_ONLY'] = '--disconly' in opts
+	param['DISC_ONLY'] |= '--disconly' in opts
 	param['DEBUG'] = max(param['DEBUG'],
 			'--verbose' in opts, 2 * ('--debug' in opts))
 	param['TED'] |= '--ted' in opts
-- 
2.43.0


From 3944c5ea982c6bdd159b80089b98a9e374a77a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 037/172] fix: trailing whitespace in evaluation parameter file

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 4c5aa7f..4eeed8a 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -680,7 +680,7 @@ def readparam(filename):
 	if filename:
 		with io.open(filename, encoding='utf8') as inp:
 			lines = inp.read().splitlines()
-	for line in lines:
+	for line in map(str.strip, lines):
 		if line and not line.startswith('#'):
 			key, val = line.split(None, 1)
 			if key in validkeysonce:
-- 
2.43.0


From fb147ddd21513ea8e63f5f35ce4be9272f8371ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 038/172] fix: DELETE_ROOT_PRETERMS used wrong indices when
 candidate lacks tokens

---
 discodop/eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 4eeed8a..3d40eac 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -355,9 +355,12 @@ class TreePairResult(object):
 		grootpos = {child[0] for child in gtree
 				if child and isinstance(child[0], int)}
 		# massage the data (in-place modifications)
+		# tokens of candidate whose gold POS tag is directly under the root
+		crootpos = {n for n, m in alignsent(self.csent, self.gsent,
+				range(len(self.gsent))).items() if m in grootpos}
 		self.ctree = transform(ctree, self.csent, self.cpos,
 				alignsent(self.csent, self.gsent, dict(self.gpos)),
-				self.param, grootpos)
+				self.param, crootpos)
 		self.gtree = transform(gtree, self.gsent, self.gpos,
 				dict(self.gpos), self.param, grootpos)
 		if len(self.csent) != len(self.gsent):
-- 
2.43.0


From 2e1f9e4c36071f525ec0c0f30642ebca30e39677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 039/172] fix: evaluation crashed when leaf-ancestor score is 1
 without exact match

---
 discodop/eval.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 3d40eac..0c8e0bc 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -403,8 +403,6 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			self.cdep = dependencies(self.ctree)
 			self.gdep = dependencies(self.gtree)
-		assert self.lascore != 1 or self.gbrack == self.cbrack, (
-				'leaf ancestor score 1.0 but no exact match: (bug?)')
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
-- 
2.43.0


From 34159b4ee0a63ecd4ceb1eb2fc58813fe746d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 040/172] fix: evaluation raised KeyError for mismatching
 sentence

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 0c8e0bc..177c7de 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -795,7 +795,7 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 					bnodes = b[:]
 					b[:] = []
 					a[n:n + 1] = bnodes
-			elif (gpos[b[0]] in param['DELETE_LABEL']
+			elif (gpos.get(b[0]) in param['DELETE_LABEL']
 					or sent[b[0]] in param['DELETE_WORD']
 					or (param['DELETE_ROOT_PRETERMS'] and b[0] in grootpos)):
 				# remove pre-terminal entirely, but only look at gold tree,
-- 
2.43.0


From 1543159eaad3cff4509e45aaa44cb882e2e8756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 041/172] fix: category breakdown crashed when there are no
 gold brackets

---
 discodop/eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 177c7de..f03a644 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -151,10 +151,10 @@ class Evaluator(object):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
-				print('%s  %6.2f  %s  %s  %s' % (
+				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values())
-						/ sum(acc.goldb.values()),
+					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
+							/ sum(acc.goldb.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
-- 
2.43.0


From 461ebce8c786b4060b3924b02da2bf22a157ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 042/172] fix: dependency evaluation crashed when head word is
 deleted

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 093688c..26c4928 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -911,7 +911,8 @@ def _makedep(node, deps):
 	"""Traverse a head-marked tree and extract dependencies."""
 	if isinstance(node[0], int):
 		return node[0] + 1
-	headchild = next(iter(a for a in node if a.type == HEAD))
+	# NB: the head may have been deleted for evaluation
+	headchild = next((a for a in node if a.type == HEAD), node[0])
 	lexhead = _makedep(headchild, deps)
 	for child in node:
 		if child is headchild:
-- 
2.43.0


From 27eb378a5a545c043528bcd37f9cdd1344212502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 043/172] fix: tree edit distance crashed on empty tree

---
 discodop/treedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treedist.py b/discodop/treedist.py
index 330040c..fa4a13e 100644
--- a/discodop/treedist.py
+++ b/discodop/treedist.py
@@ -77,7 +77,7 @@ def prepare(tree, includeterms=False):
 		(unless ``includeterms=True``)."""
 	tree = Tree.convert(tree)
 	# canonical order of children
-	for a in tree.subtrees(lambda n: isinstance(n[0], Tree)):
+	for a in tree.subtrees(lambda n: n and isinstance(n[0], Tree)):
 		a.children.sort(key=lambda n: min(n.leaves()))
 	if includeterms:
 		for a in tree.treepositions('leaves'):
-- 
2.43.0


From 2a505e4b4f61d85e7b23af6bc2f50995e625854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 044/172] fix: treetransforms --slice with negative indices

---
 discodop/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..2d528c7 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -205,7 +205,6 @@ where input and output are treebanks; standard in/output is used if not given.
 """
 	import io
 	from getopt import gnu_getopt, GetoptError
-	from itertools import islice
 	from . import treebank, treebanktransforms
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
@@ -254,8 +253,10 @@ where input and output are treebanks; standard in/output is used if not given.
 			lemmas=opts.get('--lemmas'))
 	start, end = opts.get('--slice', ':').split(':')
 	start, end = (int(start) if start else None), (int(end) if end else None)
-	# FIXME: support negative indices
-	trees = corpus.itertrees(start, end)
+	if (start or 0) < 0 or (end or 0) < 0:
+		trees = iter(list(corpus.itertrees())[start:end])
+	else:
+		trees = corpus.itertrees(start, end)
 	if '--maxlen' in opts:
 		maxlen = int(opts['--maxlen'])
 		trees = ((key, item) for key, item in trees
@@ -354,7 +355,7 @@ where input and output are treebanks; standard in/output is used if not given.
 					'export', 'bracket', 'discbracket')
 				and set(opts) <= {'--slice', '--inputenc', '--outputenc',
 					'--inputfmt', '--outputfmt'}):
-			for block in islice(corpus.blocks().values(), start, end):
+			for block in list(corpus.blocks().values())[start:end]:
 				outfile.write(block)
 				cnt += 1
 		else:
-- 
2.43.0


From 9120e1f19c6ec527166d3fb2b6c525a6d244171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 045/172] fix: treetransforms --markovthreshold was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 2d528c7..8c8dd38 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -333,7 +333,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From 9b51900e9376bca3e4a383bbf97acda4ede81ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 046/172] fix: treetransforms --outputenc was ignored

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 8c8dd38..76b12bf 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -346,7 +346,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From 5e3944c633bb896964eb87b32e1873a6cbb30ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 047/172] fix: treetransforms crashed on empty tree with
 bracket output

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 76b12bf..8cae8a5 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -360,7 +360,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				cnt += 1
 		else:
 			if opts.get('--outputfmt', 'export') == 'bracket':
-				trees = ((key, canonicalize(item.tree) and item)
+				trees = ((key, (canonicalize(item.tree), item)[1])
 						for key, item in trees)
 			if opts.get('--outputfmt', 'export') == 'export':
 				outfile.write(treebank.EXPORTHEADER)
-- 
2.43.0


From 7de778398cbde99f59a3b329d536edaa84224fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 048/172] fix: agenda returned stale entries for keys that were
 popped earlier

---
 discodop/_containers.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discodop/_containers.h b/discodop/_containers.h
index 689b0cd..6483630 100644
--- a/discodop/_containers.h
+++ b/discodop/_containers.h
@@ -132,7 +132,7 @@ public:
 		// 2. priority is equal: heap will have a duplicate, but map only
 		//             has one, so other one is ignored.
 		// 3. priority is worse: the better one will pop from heap first,
-		//             so this item will be ignored.
+		//             but is ignored because it does not match the map.
 		entry_type entry(k, v, ++counter);
 		map[k] = entry;
 		heap.push(entry);
@@ -158,12 +158,11 @@ public:
 		}
 		typename map_type::iterator it;
 		entry_type entry = heap.top();
-		// skip entries which are no longer in the map; (could verify that
-		// priority matches w/map, but heap gives us the best priority so we
-		// are not interested in other priorities for this key)
+		// skip entries which are no longer in the map, or which are left over
+		// from before the key was last popped or updated.
 		while (it = map.find(entry.key), it == map.end()
-				// || it->second.value != entry.value
-				) {
+				|| it->second.count != entry.count
+				|| it->second.value != entry.value) {
 			heap.pop();
 			if (heap.empty()) {
 				return noitem;
-- 
2.43.0


From 5b5a0c12609328f00ede1b89597b1e4a0d2a56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 049/172] fix: LCFRS parser wrote out of bounds given sentences
 of 128 words or more

---
 discodop/containers.pyx | 2 ++
 discodop/plcfrs.pyx     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..a0e5e5a 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -40,6 +40,8 @@ cdef SmallChartItem CFGtoSmallChartItem(Label label, Idx start, Idx end):
 cdef FatChartItem CFGtoFatChartItem(Label label, Idx start, Idx end):
 	cdef FatChartItem fci = FatChartItem(label)
 	cdef short n
+	if end >= SLOTS * BITSIZE:  # does not fit
+		return fci
 	if BITSLOT(start) == BITSLOT(end):
 		fci.vec[BITSLOT(start)] = (1UL << end) - (1UL << start)
 	else:
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..d13cbc7 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -352,6 +352,9 @@ def parse(sent, Grammar grammar, tags=None, bint exhaustive=True,
 				postagging)
 	chart = FatLCFRSChart(grammar, list(sent), start,
 			itemsestimate=itemsestimate)
+	if len(sent) >= SLOTS * BITSIZE:
+		return chart, ('no parse: sentence too long (%d words, max %d)' % (
+				len(sent), SLOTS * BITSIZE - 1))
 	return parse_main[FatLCFRSChart, FatChartItem](
 			<FatLCFRSChart>chart, <FatChartItem>(<FatLCFRSChart>chart)._root(),
 			sent, grammar, tags, exhaustive, whitelist,
-- 
2.43.0


From 048448171eaad5cdc4b2ac0b37f2e88f0b289c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 050/172] fix: wrong priorities for unaries in dense CFG chart
 led to duplicate edges

---
 discodop/pcfg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..6c02a1c 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -748,7 +748,7 @@ cdef inline void applyunaryrules(
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
 		unaryagenda.setifbetter(
-				chart._label(item), (<Chart>chart).subtreeprob(itemidx))
+				chart._label(item), chart._subtreeprob(item))
 	# 	unaryentry.first = chart._label(item)
 	# 	unaryentry.second = chart._subtreeprob(item)
 	# 	unaryentries.push_back(unaryentry)
-- 
2.43.0


From 7a6474ea9f2a52a5bef41764985aff4587d50ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 051/172] fix: k-best derivations incomplete because of edges
 shared by different items

---
 discodop/kbest.pxd |  1 +
 discodop/kbest.pyx | 17 +++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/discodop/kbest.pxd b/discodop/kbest.pxd
index 4546020..d2a5b02 100644
--- a/discodop/kbest.pxd
+++ b/discodop/kbest.pxd
@@ -9,6 +9,7 @@ from .pcfg cimport CFGChart, DenseCFGChart, SparseCFGChart
 from .plcfrs cimport LCFRSChart, SmallLCFRSChart, FatLCFRSChart
 
 ctypedef sparse_hash_map[ItemNo, RankedEdgeAgenda[Prob]] agendas_type
+ctypedef sparse_hash_map[ItemNo, RankedEdgeSet] explored_type
 
 cdef string getderiv(ItemNo v, RankedEdge ej, Chart chart)
 cdef collectitems(ItemNo v, RankedEdge& ej, Chart chart, itemset)
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 038c9da..32cdd1e 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -53,12 +53,13 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-		RankedEdgeSet& explored, int depthlimit):
+		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
 
 	:param k1: the global k, with ``k <= k1``
 	:param cand: contains a queue of edges to consider for each vertex
-	:param explored: a set of all edges already visited."""
+	:param explored: for each vertex, a set of all edges already visited
+		(different vertices may have edges with the same rule and position)."""
 	cdef pair[RankedEdge, Prob] entry
 	cdef RankedEdge ej, ej1
 	cdef int ji
@@ -95,11 +96,11 @@ cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 					# if it exists and is not in heap yet
 					if (chart.rankededges[ei].size() != 0
 							and ji < <int>chart.rankededges[ei].size()
-							and explored.count(ej1) == 0):
+							and explored[v].count(ej1) == 0):
 						# 	and cand[v]): gives duplicates
 						# add it to the heap
 						cand[v].setitem(ej1, getprob(chart, v, ej1))
-						explored.insert(ej1)
+						explored[v].insert(ej1)
 			# end of lazynext
 		if cand[v].empty():
 			break
@@ -135,7 +136,7 @@ cdef inline Prob getprob(Chart chart, ItemNo v, RankedEdge& ej) except -1:
 
 
 cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
-		RankedEdgeSet& explored, int depthlimit) except -2:
+		explored_type& explored, int depthlimit) except -2:
 	"""Traverse derivation to ensure all 1-best RankedEdges are present.
 
 	:returns: True when ``ej`` is a valid, complete derivation."""
@@ -155,7 +156,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[leftitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[leftitem].insert(entry.first)
 		if not explorederivation(leftitem,
 				chart.rankededges[leftitem][ej.left].first,
 				chart, explored, depthlimit - 1):
@@ -170,7 +171,7 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[rightitem].push_back(entry)
-			explored.insert(entry.first)
+			explored[rightitem].insert(entry.first)
 		return explorederivation(rightitem,
 				chart.rankededges[rightitem][ej.right].first,
 				chart, explored, depthlimit - 1)
@@ -271,7 +272,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 
 	:param k: the number of derivations to enumerate."""
 	cdef agendas_type cand
-	cdef RankedEdgeSet explored
+	cdef explored_type explored
 	cdef pair[RankedEdge, Prob] entry
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
-- 
2.43.0


From 8c2b2008a3747e70728bfbd6956405abffa9e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 052/172] fix: wrong horizontal context in left-factored
 binarization with markhead

---
 discodop/treetransforms.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 6b06510..8d11122 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -125,6 +125,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				if isinstance(child, Tree) and child.type == HEAD:
 					headidx = i
 					break
+		# children before the head have been generated when direction switches
+		skip = headidx if headoutward and headidx else 0
 		# binary form factorization
 		if len(node) <= threshold:
 			continue
@@ -171,9 +173,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					start = i
 					end = i + horzmarkov
 				else:  # factor == 'left'
-					start = max(numchildren - i - horzmarkov + (headidx or 0),
-							0)
-					end = min(numchildren - i + (headidx or 0), numchildren)
+					start = max(numchildren - i - horzmarkov + skip, 0)
+					end = min(numchildren - i + skip, numchildren)
 				siblings = ''
 				if direction and factor == 'left':
 					siblings += 'r:'
@@ -200,10 +201,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					start = i
 					end = i + horzmarkov
 				else:  # factor == 'left':
-					start = max(numchildren - i - horzmarkov + (headidx or 0),
-							(headidx or 0))
-					end = min(numchildren - i + (headidx or 0),
-							numchildren)
+					start = max(numchildren - i - horzmarkov + skip, skip)
+					end = min(numchildren - i + skip, numchildren)
 				if factor == 'right':
 					curnode[:] = [childnodes.pop(0), newnode]
 				else:  # factor == 'left':
-- 
2.43.0


From 11e589e4220060ad7e3fb44485709c4f0079505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 053/172] fix: filterlabels did not match labels of the form
 A/B in binarization

---
 discodop/treetransforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8d11122..ebf77de 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -185,7 +185,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				if dot:
 					siblings += '.'
 				siblings += ','.join(a for a in childlabels[start:end]
-						if a not in filterlabels)
+						if a.split('/', 1)[0] not in filterlabels)
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
@@ -216,20 +216,20 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					siblings += childlabels[headidx] + ';'
 				if dot:
 					siblings += ','.join(a for a in childlabels[:start]
-							if a not in filterlabels) + '.'
+							if a.split('/', 1)[0] not in filterlabels) + '.'
 				if revhorzmarkov:
 					if factor == 'right':
 						siblings += ','.join(a for a in childlabels[
 								max(start - revhorzmarkov, 0):start]
-								if a not in filterlabels) + ';'
+								if a.split('/', 1)[0] not in filterlabels) + ';'
 					else:  # factor == 'left':
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
-								if a not in filterlabels) + ';'
+								if a.split('/', 1)[0] not in filterlabels) + ';'
 				# left-factored: only siblings dominated by this node
 				stop = None if factor == 'right' or headoutward else end
 				siblings += ','.join([a for a in childlabels[start:stop]
-						if a not in filterlabels][:horzmarkov])
+						if a.split('/', 1)[0] not in filterlabels][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-- 
2.43.0


From 77f68eff1e598723d84edd57c24a8488ea8fec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 054/172] fix: markovthreshold lost parent annotation, its
 vertmarkov argument had no effect

---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index ebf77de..fd78f1b 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -26,7 +26,7 @@ from .util import OrderedSet, PyAgenda
 
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
-MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
+MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(?:\^<(.*)>)?([^>]*)$')
 
 
 def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
-- 
2.43.0


From 5df28384b78c9b6e7a0a2f4967ade23c0e0dc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 055/172] fix: --twoterms missed fragments with terminals below
 a unary node

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..19ef836 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -321,7 +321,7 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	elif TESTBIT(&matrix[b[j].left * SLOTS], a[i].left):
 		terms += extractat(matrix, result, a, b, a[i].left, b[j].left, SLOTS)
 	if a[i].right < 0:
-		return 0
+		return terms
 	elif TESTBIT(&matrix[b[j].right * SLOTS], a[i].right):
 		terms += extractat(matrix, result, a, b, a[i].right, b[j].right, SLOTS)
 	return terms
-- 
2.43.0


From bee50f20c2d9e75743c2ccc1d8e7ecb5a78d8d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 056/172] fix: unary nodes were counted as substitution sites
 in cover fragments

---
 discodop/_fragments.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 19ef836..7d5be6e 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -753,13 +753,14 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 		for lfrag in table[nodes[i].left]:
 			ldepth = getroot(getpointer(lfrag), SLOTS)
 			lfrontiers = getid(getpointer(lfrag), SLOTS)
-			if (ldepth + 1 <= maxdepth
-					and lfrontiers + 1 <= maxfrontier):
+			if nodes[i].right >= 0:  # right node as frontier
+				lfrontiers += 1
+			if ldepth + 1 <= maxdepth and lfrontiers <= maxfrontier:
 				# bitset with current idx + left bitset
 				memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
 				SETBIT(scratch, i)
 				setunioninplace(scratch, getpointer(lfrag), SLOTS)
-				setrootid(scratch, ldepth + 1, lfrontiers + 1, SLOTS)
+				setrootid(scratch, ldepth + 1, lfrontiers, SLOTS)
 				table[i].append(wrap(scratch, SLOTS))
 		if nodes[i].right >= 0:  # binary node
 			# left node as frontier with all rfrags
-- 
2.43.0


From c88bf1073ba0b41559880b6bb7c762f6a6567dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 057/172] fix: fragments --complete crashed with multiple
 processes

---
 discodop/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..20dd665 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -206,7 +206,7 @@ def regular(filenames, numproc, limit, encoding):
 	if numproc != 1:
 		pool.close()
 		pool.join()
-		del dowork, pool
+		del pool
 	return fragmentkeys, counts
 
 
-- 
2.43.0


From a66490dd76ed8c8d41a70e67f59f9f1bc23a15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 058/172] fix: wrong labels for constituents with 5 or more
 children in fragments command

---
 discodop/_fragments.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 7d5be6e..2c83420 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -962,7 +962,7 @@ cdef int readtree(
 	# :param disc: whether to expect discbracket format.
 	cdef short idx = 0, n = 0, m, y, cur, parent = -1
 	cdef short lenline = len(line), lensent = 0
-	cdef int label, binlabel, binlabel2
+	cdef int label, origlabel, binlabel, binlabel2
 	cdef str terminal = None
 	cdef bytes prod = None
 	cdef list binchildren, binlabels
@@ -1033,8 +1033,9 @@ cdef int readtree(
 					# collect labels
 					binchildren = children.pop()
 					binlabels = [labels.data.as_ints[m] for m in binchildren]
+					origlabel = labels.data.as_ints[parent]
 					binlabel = vocab._getlabelid('%s|<%s.%s>' % (
-							vocab.idtolabel(labels.data.as_ints[parent]),
+							vocab.idtolabel(origlabel),
 							vocab.idtolabel(binlabels[0]),
 							','.join(vocab.idtolabel(x)
 								for x in binlabels[1:])))
@@ -1054,8 +1055,7 @@ cdef int readtree(
 						else:
 							nodes[idx].right = idx + 1
 							binlabel2 = vocab._getlabelid('%s|<%s.%s>' % (
-									vocab.idtolabel(
-										labels.data.as_ints[parent]),
+									vocab.idtolabel(origlabel),
 									','.join(vocab.idtolabel(x)
 										for x in binlabels[:m + 1]),
 									','.join(vocab.idtolabel(x)
-- 
2.43.0


From f531323fd2687e9b7e9e646bbd28e638d11521f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 059/172] fix: wrong frequencies of fragments when second
 treebank has larger trees

---
 discodop/fragments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 20dd665..5632650 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -370,8 +370,11 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	# use same bitset size as when extracting these fragments
+	trees2 = PARAMS.get('trees2') or trees1
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=max(trees1.maxnodes, trees2.maxnodes))
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From cd3f0299ec3b7347e75b779cd7f499bb019e8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 060/172] fix: --twoterms crashed with words that are not in
 second treebank

---
 discodop/_fragments.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 2c83420..29ad576 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -666,9 +666,12 @@ cdef twoterminals(NodeArray a, Node *anodes,
 		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
 			continue
 		tmp = trees2.prodindex[anodes[i].prod]
+		if tmp is None:  # production does not occur in trees2
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
-					and anodes[j].prod in lexicalprods):
+					and anodes[j].prod in lexicalprods
+					and trees2.prodindex[anodes[j].prod] is not None):
 				candidates |= tmp & trees2.prodindex[anodes[j].prod]
 	return candidates
 
-- 
2.43.0


From affb5345a8dc04aa8349cfa604a04dcb8e4381ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 061/172] fix: fragments command crashed with both --nofreq and
 --cover

---
 discodop/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5632650..57a0d7b 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -199,7 +199,8 @@ def regular(filenames, numproc, limit, encoding):
 		for a in cover:
 			if a not in fragments:
 				fragmentkeys.append(a)
-				counts.append(cover[a])
+				if counts is not None:
+					counts.append(cover[a])
 		logging.info('merged %d cover fragments '
 				'up to depth %d with max %d frontier non-terminals.',
 				len(fragmentkeys) - before, maxdepth, maxfrontier)
-- 
2.43.0


From f4c5cdabacd57f34f70fceccbb09bc8971f02afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 062/172] fix: nodes with several terminals were written
 without words or indices

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3d92b1d..4974def 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -23,7 +23,7 @@ HEAD, COMPLEMENT, MODIFIER = range(3)
 PTBPUNC = {'-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-'}
 FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
-INDEXRE = re.compile(r' ([0-9]+)\)')
+INDEXRE = re.compile(r'(?<=[ \n])([0-9]+)(?=[ )\n])')
 # regex to check if the tree contains any terminals not prefixed by indices
 STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
 
@@ -1950,7 +1950,7 @@ def discbrackettree(treestr):
 def writebrackettree(tree, sent):
 	"""Return a tree in bracket notation with words as leaves."""
 	return INDEXRE.sub(
-			lambda x: ' %s)' % escape(sent[int(x.group(1))]),
+			lambda x: escape(sent[int(x.group(1))]),
 			str(tree)) + '\n'
 
 
@@ -1958,7 +1958,7 @@ def writediscbrackettree(tree, sent, pretty=False):
 	"""Return tree in bracket notation with leaves as ``index=word``."""
 	treestr = tree.pprint() if pretty else str(tree)
 	return INDEXRE.sub(
-			lambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),
+			lambda x: '%s=%s' % (x.group(1), escape(sent[int(x.group(1))])),
 			treestr) + '\n'
 
 
-- 
2.43.0


From e42e4bae9fdddd4d8cd737c621ea2f71f287b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 063/172] fix: FragmentSearcher could not be closed

---
 discodop/treesearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..d7052ce 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -602,8 +602,9 @@ class FragmentSearcher(CorpusSearcher):
 	def close(self):
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if a is not None:
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From 1772be4a52404d2e3587b916dc8a1aa4b48d8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 064/172] fix: wrong number of sentences and words from
 RegexSearcher.getinfo

---
 discodop/treesearch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d7052ce..f2ece54 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1037,13 +1037,14 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		# last element of index is the end of the file
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
-			with openread(filename) as inp:
-				data = inp.read()
+			data = readbytes(filename)
 		else:
-			_, data = self.files[filename]
-		numwords = data.count(' ') + numlines
+			_, buf = self.files[filename]
+			data = buf[:]
+		numwords = data.count(b' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
 				numnodes=0, maxnodes=None)
-- 
2.43.0


From 5792084e1884e97714e2b5381b9b1abf950a7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 065/172] fix: RegexSearcher.sents cached results under the
 wrong key

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index f2ece54..f2a4ba6 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -959,8 +959,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-- 
2.43.0


From 6f6283fb82db3b084d6babdf820c8841a6b417d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 066/172] fix: RegexSearcher.batchcounts left out zero counts
 when slice starts after last sentence

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index f2a4ba6..a91cbf1 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1164,7 +1164,7 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 	else:
 		result = array.array('I')
 	if start and start >= len(lineindex):
-		return result
+		return result if sents else array.array('I', [0] * len(patterns))
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
 		try:
-- 
2.43.0


From 11efc359e041a0ee711257c92be64f6534bfb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 067/172] fix: matches were not highlighted when functions or
 morphology were removed

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index a91cbf1..96dbcfa 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -699,6 +699,7 @@ class FragmentSearcher(CorpusSearcher):
 			for matches in future.result():
 				for sentno, treestr, match in matches:
 					treestr = filterlabels(treestr, nofunc, nomorph)
+					match = filterlabels(match, nofunc, nomorph)
 					# FIXME: this highlights the whole subtree, of which
 					# frag may be a subgraph.
 					treestr = treestr.replace(
-- 
2.43.0


From 0b337e84ac3b9630059f4ddfae4932e7fb68a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 068/172] fix: breakdown of regex matches counted groups
 instead of matches

---
 discodop/treesearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 96dbcfa..58a30cd 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1137,9 +1137,9 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					result.append((lineno, sent, mstart, mend))
 			else:
 				if breakdown:
-					matches = pattern.findall(
-							data, startidx, endidx)[:maxresults]
-					result.update(a.decode('utf8') for a in matches)
+					matches = islice(
+							pattern.finditer(data, startidx, endidx), maxresults)
+					result.update(a.group().decode('utf8') for a in matches)
 				else:
 					try:
 						result = pattern.count(data, startidx, endidx)
-- 
2.43.0


From a9563e4b11c86a7a643f858628295cff04431ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 069/172] fix: removing function tags from trees modified words
 with hyphens

---
 discodop/treesearch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 58a30cd..98deb18 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -39,7 +39,8 @@ LEAFINDICES = re.compile(r' ([0-9]+)=')
 LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
-FUNC_TAGS = re.compile(r'-\w+')
+FUNC_TAGS = re.compile(r'(?<!\()-\w+')
+LABELS = re.compile(r'\([^ ()]+')
 
 CorpusInfo = namedtuple('CorpusInfo',
 		['len', 'numwords', 'numnodes', 'maxnodes'])
@@ -1260,8 +1261,8 @@ class FIFOOrederedDict(OrderedDict):
 
 def filterlabels(line, nofunc, nomorph):
 	"""Remove morphological and/or grammatical function labels from tree(s)."""
-	if nofunc:
-		line = FUNC_TAGS.sub('', line)
+	if nofunc:  # only in labels, not in words
+		line = LABELS.sub(lambda g: FUNC_TAGS.sub('', g.group()), line)
 	if nomorph:
 		line = MORPH_TAGS.sub(lambda g: g.group(1) + g.group(2), line)
 	return line
-- 
2.43.0


From 90d653d906bcfe59186f3822b69e0cdcb08f2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 070/172] fix: searching empty files with regular expressions
 raised an error

---
 discodop/treesearch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 98deb18..aa90c4a 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -889,6 +889,8 @@ class RegexSearcher(CorpusSearcher):
 			self.lineindex = MultiRoaringBitmap(tmp, filename=self.lineidxpath)
 		if inmemory:
 			for filename in self.files:
+				if os.stat(filename).st_size == 0:
+					continue  # cannot mmap an empty file
 				fileno = os.open(filename, os.O_RDONLY)
 				buf = mmap.mmap(fileno, 0, access=mmap.ACCESS_READ)
 				self.files[filename] = (fileno, buf)
@@ -1103,7 +1105,7 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 	lastline = end is None or end > len(lineindex) - 1
 	if lastline:
 		end = len(lineindex) - 1
-	if start and start > len(lineindex):
+	if len(lineindex) <= 1 or (start and start > len(lineindex)):
 		return result
 	startidx = lineindex.select(start - 1 if start else 0)
 	endidx = lineindex.select(end)
@@ -1165,7 +1167,7 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 		result = []
 	else:
 		result = array.array('I')
-	if start and start >= len(lineindex):
+	if len(lineindex) <= 1 or (start and start >= len(lineindex)):
 		return result if sents else array.array('I', [0] * len(patterns))
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
-- 
2.43.0


From db075a6ab48533dff0a0f7b2ace9cc3d57d61657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 071/172] fix: maximum number of results was exceeded with
 multiple fragments

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 29ad576..4d45a7b 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -472,6 +472,8 @@ cpdef exactcountsslice(list bitsets, Ctrees trees1, Ctrees trees2,
 	candidatesarray = clone(uintarray, 0, False)
 	# compare one bitset to each tree for each unique fragment.
 	for n, wrapper in enumerate(bitsets):
+		if nummatches >= maxresults_:
+			break
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
-- 
2.43.0


From 71f7ec7dbed677989d307768d7ecb82e38244144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 072/172] fix: unseen words in fragment queries matched any
 word when index was reused

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index aa90c4a..46409d9 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -569,12 +569,12 @@ class FragmentSearcher(CorpusSearcher):
 		path = os.path.dirname(next(iter(sorted(files))))
 		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
 		if os.path.exists(self.vocabpath):
-			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
+			# NB: should be mutable, queries may introduce new productions
+			self.vocab = Vocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
 			if all(os.path.exists(a + '.ct')
 						and mtime > os.stat(a + '.ct').st_mtime
 						> os.stat(a).st_mtime for a in files):
-				self.vocab.makeindex()
 				newvocab = False
 		if newvocab:
 			self.vocab = Vocabulary()
-- 
2.43.0


From 51c09c5f3d988cdeff0abf74332f937479abbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 073/172] fix: treesearch used indexes of other files when list
 of files changed

---
 discodop/treesearch.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 46409d9..d0af033 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -574,7 +574,8 @@ class FragmentSearcher(CorpusSearcher):
 			mtime = os.stat(self.vocabpath).st_mtime
 			if all(os.path.exists(a + '.ct')
 						and mtime > os.stat(a + '.ct').st_mtime
-						> os.stat(a).st_mtime for a in files):
+						> os.stat(a).st_mtime for a in files
+					) and _samefiles(self.vocabpath, files):
 				newvocab = False
 		if newvocab:
 			self.vocab = Vocabulary()
@@ -594,6 +595,7 @@ class FragmentSearcher(CorpusSearcher):
 				self.files[filename] = Ctrees.fromfile('%s.ct' % filename)
 		if newvocab:
 			self.vocab.tofile(self.vocabpath)
+			_writefilelist(self.vocabpath, files)
 		self.macros = None
 		if macros:
 			with openread(macros) as tmp:
@@ -882,11 +884,13 @@ class RegexSearcher(CorpusSearcher):
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
 		else:
 			mtime, tmp = 0, []
-		if len(tmp) == len(files) and mtime > maxmtime:
+		if (len(tmp) == len(files) and mtime > maxmtime
+				and _samefiles(self.lineidxpath, files)):
 			self.lineindex = tmp
 		else:
 			tmp = [_indexfile(name) for name in sorted(files)]
 			self.lineindex = MultiRoaringBitmap(tmp, filename=self.lineidxpath)
+			_writefilelist(self.lineidxpath, files)
 		if inmemory:
 			for filename in self.files:
 				if os.stat(filename).st_size == 0:
@@ -1233,6 +1237,21 @@ def _indexfile(filename):
 	return result.freeze()
 
 
+def _writefilelist(idxpath, files):
+	"""Store list of files that an index was created for."""
+	with open(idxpath + '.files', 'w', encoding='utf8') as out:
+		out.writelines(os.path.abspath(a) + '\n' for a in sorted(files))
+
+
+def _samefiles(idxpath, files):
+	"""Whether an index was created for this list of files."""
+	if not os.path.exists(idxpath + '.files'):
+		return False
+	with open(idxpath + '.files', encoding='utf8') as inp:
+		return inp.read() == ''.join(
+				os.path.abspath(a) + '\n' for a in sorted(files))
+
+
 class NoFuture(object):
 	"""A non-asynchronous version of concurrent.futures.Future."""
 
-- 
2.43.0


From 6c8b517c268d0502d2fc863092d12a9e8bc82186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 074/172] fix: error when repeating a query without limit with
 a maximum number of results

---
 discodop/treesearch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d0af033..2061498 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -358,7 +358,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -416,7 +417,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -685,7 +687,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -738,7 +741,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -955,7 +959,8 @@ class RegexSearcher(CorpusSearcher):
 						start, end, True, True]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
-- 
2.43.0


From 0b5735b7e9c450224bd1520b3229c8255c1076c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 075/172] fix: batchcounts with fragments did not preserve
 order of corpora with multiple processes

---
 discodop/treesearch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 2061498..b758889 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -669,8 +669,7 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
-- 
2.43.0


From 4289c2577a91accee553f77215031c8205bd597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 076/172] fix: treesearch --file with a single query only
 matched at end of line

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index b758889..6f2bf46 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1415,7 +1415,7 @@ def main():
 	opts = dict(opts)
 	if '--file' in opts or '-f' in opts:
 		with openread(query) as tmp:
-			query = tmp.read()
+			query = '\n'.join(tmp.read().splitlines())
 	macros = opts.get('--macros', opts.get('-M'))
 	engine = opts.get('--engine', opts.get('-e', 'frag'))
 	maxresults = int(opts.get('--max-count', opts.get('-m', 100))) or None
-- 
2.43.0


From c842ba8f7cb379abe1d2cafa27e33ddb2c4631f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 077/172] fix: treesearch leaked file descriptors, one or more
 for each query

---
 discodop/containers.pyx | 12 ++++++------
 discodop/treesearch.py  |  4 ++++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index a0e5e5a..28681e4 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -459,8 +459,7 @@ cdef class Ctrees:
 	def close(self):
 		"""Close any open files and free memory."""
 		if isinstance(self._state, tuple):
-			self._state[1].close()
-			os.close(self._state[0])
+			self._state[0].close()
 			self._state = None
 
 	def __enter__(self):
@@ -547,7 +546,8 @@ cdef class Ctrees:
 		cdef int result
 		fileno = os.open(filename, os.O_RDONLY)
 		buf = mmap.mmap(fileno, 0, access=mmap.ACCESS_READ)
-		ob._state = (fileno, buf)
+		os.close(fileno)  # the mmap object has its own duplicate
+		ob._state = (buf, )
 		result = getbufptr(buf, &ptr, &size, &buffer)
 		if result != 0:
 			raise ValueError('could not get buffer from mmap.')
@@ -961,7 +961,8 @@ cdef class FixedVocabulary(Vocabulary):
 		cdef int result
 		fileno = os.open(filename, os.O_RDONLY)
 		buf = mmap.mmap(fileno, 0, access=mmap.ACCESS_READ)
-		ob.state = ('mmap', fileno, buf)
+		os.close(fileno)  # the mmap object has its own duplicate
+		ob.state = ('mmap', buf)
 		result = getbufptr(buf, &ptr, &size, &buffer)
 		if result != 0:
 			raise ValueError('could not get buffer from mmap.')
@@ -999,8 +1000,7 @@ cdef class FixedVocabulary(Vocabulary):
 		"""Close open files, if any."""
 		if self.state:
 			if self.state[0] == 'mmap':
-				self.state[2].close()
-				os.close(self.state[1])
+				self.state[1].close()
 			self.state = None
 
 	def __enter__(self):
diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 6f2bf46..4868e9c 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1114,6 +1114,8 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 	if lastline:
 		end = len(lineindex) - 1
 	if len(lineindex) <= 1 or (start and start > len(lineindex)):
+		if hasattr(mrb, 'close'):
+			mrb.close()
 		return result
 	startidx = lineindex.select(start - 1 if start else 0)
 	endidx = lineindex.select(end)
@@ -1176,6 +1178,8 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 	else:
 		result = array.array('I')
 	if len(lineindex) <= 1 or (start and start >= len(lineindex)):
+		if hasattr(mrb, 'close'):
+			mrb.close()
 		return result if sents else array.array('I', [0] * len(patterns))
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
-- 
2.43.0


From 9f8bd0587ec6aa5c5fd0c82e63df7cc5a9ce4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 078/172] fix: error when saving a treebank with a frozen index

---
 discodop/containers.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 28681e4..5420c3a 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -510,7 +510,9 @@ cdef class Ctrees:
 		cdef uint64_t *ptr
 		cdef int offset
 		cdef bytes tmp
-		prodindex = MultiRoaringBitmap(self.prodindex)
+		prodindex = (self.prodindex
+				if isinstance(self.prodindex, MultiRoaringBitmap)
+				else MultiRoaringBitmap(self.prodindex))
 		tmp = prodindex.__getstate__()
 		out = clone(chararray,
 				4 * sizeof(uint64_t)
-- 
2.43.0


From 92e3f709857677796ea20133c41db3442e2191cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 079/172] fix: discodop grammar ptsg crashed; ignored invalid
 --dopestimator

---
 discodop/cli.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 8cae8a5..ae5c860 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -393,7 +393,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	from .treetransforms import addfanoutmarkers, canonicalize
 	from .grammar import (treebankgrammar, dopreduction, doubledop, dop1,
 			compiletsg, writegrammar, grammarinfo, grammarstats,
-			splitweight, merge, sumfrags, sumrules, sumlex, stripweight,
+			convertweight, merge, sumfrags, sumrules, sumlex, stripweight,
 			addindices)
 	from .parser import readparam
 	from .runexp import (loadtraincorpus, getposmodel, dobinarization,
@@ -418,8 +418,10 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	if model not in ('pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1',
 			'ptsg', 'param', 'info', 'merge'):
 		raise ValueError('unrecognized model: %r' % model)
-	if opts.get('dopestimator', 'rfe') not in ('rfe', 'ewe', 'shortest'):
-		raise ValueError('unrecognized estimator: %r' % opts['dopestimator'])
+	if opts.get('--dopestimator', 'rfe') not in (
+			'rfe', 'ewe', 'shortest'):
+		raise ValueError('unrecognized estimator: %r'
+				% opts['--dopestimator'])
 
 	if model == 'info':
 		grammarstats(args[1])
@@ -451,11 +453,12 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: splitweight(weight) for frag, weight
+		xfragments = {frag: convertweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
-		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
+		if bitpar:
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
@@ -505,9 +508,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		myopen = gzipopen
 		rulesname += '.gz'
 		lexiconname += '.gz'
-	bitpar = model == 'pcfg' or opts.get('--inputfmt') == 'bracket'
-	if model == 'ptsg':
-		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
+	if model != 'ptsg':
+		bitpar = model == 'pcfg' or opts.get('--inputfmt') == 'bracket'
 
 	rules, lexicon = writegrammar(xgrammar, bitpar=bitpar)
 	# write output
-- 
2.43.0


From f7c91abd990bb7259a1b6d32f715e7aae07deae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 080/172] fix: discodop grammar dop1 did not write
 backtransform

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index ae5c860..e2688c2 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -517,7 +517,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		rulesfile.write(rules)
 	with codecs.getwriter('utf8')(myopen(lexiconname, 'wb')) as lexiconfile:
 		lexiconfile.write(lexicon)
-	if model in ('doubledop', 'ptsg'):
+	if model in ('doubledop', 'dop1', 'ptsg'):
 		backtransformfile = '%s.backtransform%s' % (grammarfile,
 			'.gz' if '--gzip' in opts else '')
 		with codecs.getwriter('utf8')(myopen(backtransformfile, 'wb')) as bt:
-- 
2.43.0


From 602f6a42a219df575e85f7a13618b10e4be1a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 081/172] fix: lexicon not sorted with words containing
 parentheses

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index c3d2721..e1c9cd0 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -686,7 +686,7 @@ def sortgrammar(grammar, altweights=None):
 	def sortkey(rule):
 		"""Sort key ``(word or '', 2dop binarized rule?, lhs)``."""
 		(nts, yf), _p = rule
-		word = yf[0] if nts[1] == 'Epsilon' else ''
+		word = unescape(yf[0]) if nts[1] == 'Epsilon' else ''
 		return word, '}<' in nts[0], nts[0]
 
 	if altweights is None:
-- 
2.43.0


From 5e3fcd641c5465ac4077e8f5b2d367ea6997bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 082/172] fix: grammar mistaken for bitpar format when first
 label starts with punctuation

---
 discodop/_grammar.pxi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..8525d46 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -10,7 +10,8 @@ LCFRS_NONINT = re.compile(b'\t(?:0x)?[0-9]+[./][0-9]+(?:p-[0-9]+)?\n')
 BITPAR_NONINT = re.compile(b'(?:^|\n)[0-9]+\\.[0-9]+[ \t]')
 LEXICON_NONINT = re.compile(b'[ \t][0-9]+[./][0-9]+[ \t\n]')
 # Detect rule format of bitpar
-BITPARRE = re.compile(rb'^[-.e0-9]+\b')
+BITPARRE = re.compile(
+		rb'^-?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[-+]?[0-9]+)?(?:/[0-9.]+)?[ \t]')
 # Match syntactic category and function tag, without any state splits,
 # for labels that were not introduced by the binarization:
 # e.g., given NN-HD/Acc^name group 1 will be NN-HD/Acc
-- 
2.43.0


From 32a45ab7311bde3511ce9bf6284e9187a666348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 083/172] fix: out of bounds access and wrong left items in CKY
 parser with whitelist

---
 discodop/pcfg.pyx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 6c02a1c..ddc6d38 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -571,9 +571,14 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				# NB: when this cell is empty, items[leftitemidx] is an item of
+				# a later cell (not necessarily with a different end), or
+				# does not exist.
+				while leftitemidx < chart.items.size():
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -600,8 +605,6 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-- 
2.43.0


From ced6d2886a7f0881111a457b3fa6e1bdaaf04c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 084/172] fix: getmapping() message did not recognize equal
 label sets

---
 discodop/_grammar.pxi | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 8525d46..3f87e3e 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -884,6 +884,7 @@ cdef class Grammar:
 				else:
 					try:
 						result[n] = coarse.toid[strlabel]
+						seen.add(result[n])
 						if not selfmap:
 							self.revmap[result[n]].push_back(n)
 					except KeyError:
-- 
2.43.0


From 01942974d06169a608b4dbebf1e0806db335cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 085/172] fix: inside-outside probabilities computed in wrong
 order

---
 discodop/coarsetofine.pyx | 56 ++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index a4205e6..d4589c2 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -211,25 +211,54 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
+cdef bottomup(Chart chart, vector[ItemNo]& order):
+	"""Append all items in chart to order such that children precede parents.
+
+	NB: the order in which items were added to the chart, or sorting items by
+	length, is not enough; e.g., unaries have to be in the right order as well.
+	Unary cycles are cut at an arbitrary point."""
+	cdef vector[char] state  # 0: not visited, 1: on stack, 2: done
+	cdef vector[ItemNo] stack
+	cdef ItemNo n, item, child
+	cdef Edge edge
+	state.resize(chart.parseforest.size(), 0)
+	for n in range(1, chart.numitems() + 1):
+		stack.push_back(chart.getitemidx(n))
+		while not stack.empty():
+			item = stack.back()
+			if state[item] == 0:
+				state[item] = 1
+				for edge in chart.parseforest[item]:
+					if edge.rule is NULL:
+						continue
+					child = chart._left(item, edge)
+					if state[child] == 0:
+						stack.push_back(child)
+					if edge.rule.rhs2 != 0:
+						child = chart._right(item, edge)
+						if state[child] == 0:
+							stack.push_back(child)
+			else:
+				stack.pop_back()
+				if state[item] == 1:
+					state[item] = 2
+					order.push_back(item)
+
+
 def getinside(Chart chart):
 	"""Compute inside probabilities for a chart given its parse forest."""
-	# this needs to be bottom up, so need order in which items were added
-	# currently separate list, chart.itemsinorder
-	# NB: sorting items by length is not enough,
-	# unaries have to be in the right order...
-
 	# choices for probs:
 	# - normal => underflow (current)
 	# - logprobs => loss of precision w/addition
 	# - normal, scaled => how?
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef vector[ItemNo] order
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double prob
 	chart.inside.resize(chart.probs.size(), 0.0)
 
-	# traverse items in bottom-up order
-	for n in range(1, chart.numitems() + 1):
-		item = chart.getitemidx(n)
+	bottomup(chart, order)
+	for item in order:
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
 				try:
@@ -258,15 +287,18 @@ def getinside(Chart chart):
 
 def getoutside(Chart chart):
 	"""Compute outside probabilities for a chart given its parse forest."""
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef vector[ItemNo] order
+	cdef size_t n
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
 	# cdef double sentprob = chart.inside[chart.root()]
 	# traverse items in top-down order
 	chart.outside.resize(chart.probs.size(), 0.0)
 	chart.outside[chart.root()] = 1.0
-	for n in range(chart.numitems(), 0, -1):
-		item = chart.getitemidx(n)
+	bottomup(chart, order)
+	for n in range(order.size(), 0, -1):
+		item = order[n - 1]
 		# can we define outside[item] simply as sentprob - inside[item] ?
 		# chart.outside[item] = sentprob - chart.inside[item]
 		for edge in chart.parseforest[item]:
-- 
2.43.0


From 566122e51f11e45dab8e77eb9e55c70947e435a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 086/172] fix: wrong lexical probabilities in posterior pruning

---
 discodop/containers.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 5420c3a..790ee59 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -145,8 +145,9 @@ cdef class Chart:
 		cdef int ruleno = self.lexruleno(itemidx, edge)
 		if ruleno >= 0:
 			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.logprob else prob
-		return 0 if self.logprob else 1
+			# NB: the weights may have been switched after this chart was made
+			return exp(-prob) if self.grammar.logprob else prob
+		return 1
 
 	def numitems(self):
 		"""Number of items in chart."""
-- 
2.43.0


From a8680aa71be20b63c272adc29b47da63345afd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:46 +0000
Subject: [PATCH 087/172] fix: with splitprune, contiguous items were not
 pruned; without markorigin, no items at all

---
 discodop/plcfrs.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index d13cbc7..51aa138 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -886,21 +886,19 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 	cdef int a, b
 	if whitelist is None:
 		return True
-	elif splitprune:  # disc. item to be treated as several split items?
+	# disc. item to be treated as several split items?
+	elif splitprune and (not markorigin
+			or whitelist.splitmapping[newitem.label].size() != 0):
 		b = 0
 		if markorigin:
 			cnt = 0
-			if whitelist.splitmapping[newitem.label].size() == 0:
-				return True
 		else:
-			if whitelist.mapping[newitem.label] != 0:
+			if whitelist.mapping[newitem.label] == 0:
 				return True
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
-- 
2.43.0


From 6ac968838a05c1e72da551e8891145b0fdabadc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 088/172] fix: require and block constraints did not accept
 lists, as documented

---
 discodop/coarsetofine.pyx   | 2 +-
 discodop/disambiguation.pyx | 7 +++++--
 discodop/parser.py          | 5 ++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index d4589c2..2829694 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -34,7 +34,7 @@ ctypedef fused ChartItem_fused:
 
 def prunechart(Chart coarsechart, Grammar fine, k,
 		bint splitprune, bint markorigin, bint finecfg,
-		set require=None, set block=None):
+		require=None, block=None):
 	"""Produce a white list of selected chart items.
 
 	The criterion is that they occur in the `k`-best derivations of ``chart``,
diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..15bea4b 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -80,7 +80,7 @@ cpdef getderivations(Chart chart, int k, derivstrings=True):
 
 cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 		int k=1000, int sldop_n=7, double mcplambda=1.0, set mcplabels=None,
-		bint ostag=False, set require=None, set block=None):
+		bint ostag=False, require=None, block=None):
 	"""Take a list of derivations and optimizes a given objective function.
 
 	1. Rewrites derivations into the intended parse trees.
@@ -284,7 +284,10 @@ def testconstraints(treestr, require, block):
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
 				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
-	return spans.issuperset(require) and spans.isdisjoint(block)
+	return (all((label, tuple(sorted(indices))) in spans
+				for label, indices in require or ())
+			and not any((label, tuple(sorted(indices))) in spans
+				for label, indices in block or ()))
 
 
 cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..8eef6d2 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -328,7 +328,7 @@ class Parser(object):
 							charts[stage.prune], stage.grammar, stage.k,
 							splitprune, self.stages[prevn].markorigin,
 							stage.mode.startswith('pcfg'),
-							set(require or ()), set(block or ()))
+							require, block)
 					msg += '%s; %gs\n\t' % (msg1, process_time() - beginprune)
 				else:
 					whitelist = None
@@ -430,8 +430,7 @@ class Parser(object):
 						mcplambda=stage.mcplambda,
 						mcplabels=stage.mcplabels,
 						ostag=stage.dop == 'ostag',
-						require=set(require or ()),
-						block=set(block or ()))
+						require=require, block=block)
 				msg += 'disambiguation: %s, %gs\n\t' % (
 						msg1, process_time() - begindisamb)
 				if self.verbosity >= 3:
-- 
2.43.0


From 7ec04fc94b1bafd4c0f34357a1570701d9401329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 089/172] fix: itemid() of sparse CFG chart did not return an
 item index; block and require constraints failed

---
 discodop/pcfg.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index ddc6d38..7e32e01 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -375,7 +375,8 @@ cdef class SparseCFGChart(CFGChart):
 		if whitelist is not None:
 			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
 					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.itemindex.find(item) != self.itemindex.end() and item
+		it = self.itemindex.find(item)
+		return 0 if it == self.itemindex.end() else dereference(it).second
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
-- 
2.43.0


From 5c3f96d576d2c7a4ce0c9997bfbec9aabe9b70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 090/172] fix: lexical rules of words matched in lower case, or
 of given tags, broke printing of chart

---
 discodop/containers.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 790ee59..1d17ca6 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -126,6 +126,9 @@ cdef class Chart:
 		cdef Label label = self.label(itemidx)
 		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
+		if it == self.grammar.lexicalbyword.end():  # cf. parsers
+			it = self.grammar.lexicalbyword.find(
+					self.sent[self.lexidx(edge)].lower().encode('utf8'))
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
 		# do binary search among rules for word for rule with given lhs
@@ -183,9 +186,12 @@ cdef class Chart:
 	cdef edgestr(self, ItemNo itemidx, Edge edge):
 		"""Return string representation of item and edge belonging to it."""
 		if edge.rule is NULL:
-			return "'%s' %g" % (
-					self.sent[self.lexidx(edge)],
-					self.lexprob(itemidx, edge))
+			try:
+				prob = self.lexprob(itemidx, edge)
+			except ValueError:  # tag was given
+				prob = (exp(-self.subtreeprob(itemidx)) if self.logprob
+						else self.subtreeprob(itemidx))
+			return "'%s' %g" % (self.sent[self.lexidx(edge)], prob)
 		else:
 			return '%s %s %g' % (
 					self.itemstr(self._left(itemidx, edge)),
-- 
2.43.0


From c7688e02cf6d6168f16067adb536cfb7e46dab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 091/172] fix: weight of lexical rules of a derivation when
 breaking ties among shortest derivations

---
 discodop/disambiguation.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 15bea4b..864966d 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -853,7 +853,10 @@ cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 	cdef Prob result
 	cdef ItemNo v1
 	if deriv.edge.rule is NULL:  # is terminal
-		return chart.lexprob(v, deriv.edge)
+		try:
+			return -log(chart.lexprob(v, deriv.edge))
+		except ValueError:  # tag was given
+			return chart.subtreeprob(v)
 	result = deriv.edge.rule.prob
 	v1 = chart.left(v, deriv)
 	result += getderivprob(
-- 
2.43.0


From 6cd73f1c9e633c1cfc1616859407a3df46bf1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 092/172] fix: apply constraints on labeled spans with every
 disambiguation objective

---
 discodop/disambiguation.pyx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 864966d..bbad8e4 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -140,11 +140,13 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	cdef ItemNo root = chart.root()
 
 	if method == 'sl-dop':
-		return sldop(chart, sent, tags, k, sldop_n)
+		return sldop(chart, sent, tags, k, sldop_n, require, block)
 	elif method == 'sl-dop-simple':
-		return sldop_simple(sldop_n, chart)
+		return sldop_simple(sldop_n, chart, require, block)
 	elif method == 'mcp':
-		return maxconstituentsparse(chart, mcplambda, mcplabels)
+		results, msg = maxconstituentsparse(chart, mcplambda, mcplabels)
+		return [(treestr, score, frags) for treestr, score, frags in results
+				if testconstraints(treestr, require, block)], msg
 	elif method == 'shortest':
 		# filter out all derivations which are not shortest
 		if not dopreduction:
@@ -414,7 +416,8 @@ def gettree(cells, span):
 			gettree(cells, leftspan), gettree(cells, rightspan))
 
 
-cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
+cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n,
+		require=None, block=None):
 	"""'Proper' method for sl-dop.
 
 	Parses sentence once more to find shortest derivations, pruning away any
@@ -448,7 +451,8 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 					root, entry.first, chart, backtransform)].add(deriv)
 	# sum over probs of derivations to get probs of parse trees
 	parsetreeprob = {tree: logprobsum([-derivations[d] for d in ds])
-			for tree, ds in derivsfortree.items()}
+			for tree, ds in derivsfortree.items()
+			if not (require or block) or testconstraints(tree, require, block)}
 	nmostlikelytrees = set(nlargest(sldop_n, parsetreeprob,
 			key=parsetreeprob.get))
 
@@ -486,7 +490,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 	return [(tree, result[tree], derivs[tree]) for tree in result], msg
 
 
-cdef sldop_simple(int sldop_n, Chart chart):
+cdef sldop_simple(int sldop_n, Chart chart, require=None, block=None):
 	"""Simple sl-dop method.
 
 	Estimates shortest derivation directly from number of addressed nodes in
@@ -519,7 +523,8 @@ cdef sldop_simple(int sldop_n, Chart chart):
 
 	# sum over derivations to get parse trees
 	parsetreeprob = {tree: logprobsum([-derivations[d] for d in ds])
-			for tree, ds in derivsfortree.items()}
+			for tree, ds in derivsfortree.items()
+			if not (require or block) or testconstraints(tree, require, block)}
 	selectedtrees = nlargest(sldop_n, parsetreeprob, key=parsetreeprob.get)
 
 	# the number of fragments used is the number of
-- 
2.43.0


From 395cad921da71f1af491d532bc53db52b1cc5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 093/172] fix: restore the weights of the grammar when SL-DOP
 finds no parse

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index bbad8e4..9622989 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -461,6 +461,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n,
 	shortestderivations, msg, chart2 = treeparsing(
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
 			maskrules=False)
+	chart.grammar.switch(model, logprob=True)
 	if not chart2:
 		return [], 'SL-DOP couldn\'t find parse for tree'
 	result = {}
@@ -482,7 +483,6 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n,
 						root, entry.first, chart2, backtransform)
 			if len(result) > sldop_n:
 				break
-	chart.grammar.switch(model, logprob=True)
 	if not len(result):
 		return [], 'no matching derivation found'
 	msg = '(%d derivations, %d of %d parsetrees)' % (
-- 
2.43.0


From ce39877d8899869ef3d63762c334f7859007432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 094/172] fix: clear rule mask when a tree cannot be parsed

---
 discodop/disambiguation.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 9622989..9d73fbd 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -815,6 +815,7 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 			try:
 				label = grammar.toid[node.label]
 			except KeyError:
+				grammar.setmask(None)
 				return [], "'%s' not in grammar" % node.label, None
 			# whitelist based on (label, span)
 			if <unsigned>lensent < sizeof(uint64_t) * 8:
@@ -830,6 +831,7 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 				try:
 					ruleno = grammar.getruleno(r, yf)
 				except KeyError:
+					grammar.setmask(None)
 					return [], "not in grammar: %r %r" % (r, yf), None
 				if grammar.selfrulemapping is None:
 					CLEARBIT(&(grammar.mask[0]), ruleno)
-- 
2.43.0


From b2674f247182034ea8f3fd6fd7cdf60b8a1bc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 095/172] fix: SL-DOP with Double-DOP grammars: consider
 fragments with terminals

---
 discodop/disambiguation.pyx | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 9d73fbd..5d437f1 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -797,6 +797,7 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	cdef FatChartItem fitem
 	cdef Whitelist whitelist = Whitelist()
 	cdef int n, lensent = len(sent)
+	cdef set labels
 	if <unsigned>lensent < sizeof(uint64_t) * 8:
 		whitelist.small.resize(grammar.nonterminals)
 	else:
@@ -817,15 +818,21 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 			except KeyError:
 				grammar.setmask(None)
 				return [], "'%s' not in grammar" % node.label, None
+			labels = {label}
+			if not isinstance(node[0], Tree):
+				# in Double-DOP grammars, the POS tags of terminals in
+				# fragments are of the form tag@word
+				labels.update(taglabels(grammar, node.label, sent[leaves[0]]))
 			# whitelist based on (label, span)
-			if <unsigned>lensent < sizeof(uint64_t) * 8:
-				item = SmallChartItem(label, sum([1L << n for n in leaves]))
-				whitelist.small[label].insert(item)
-			else:
-				fitem = FatChartItem(label)
-				for n in leaves:
-					SETBIT(fitem.vec, n)
-				whitelist.fat[label].insert(fitem)
+			for label in labels:
+				if <unsigned>lensent < sizeof(uint64_t) * 8:
+					item = SmallChartItem(label, sum([1L << n for n in leaves]))
+					whitelist.small[label].insert(item)
+				else:
+					fitem = FatChartItem(label)
+					for n in leaves:
+						SETBIT(fitem.vec, n)
+					whitelist.fat[label].insert(fitem)
 			# whitelist based on grammar rule
 			if maskrules and isinstance(node[0], Tree):
 				try:
@@ -852,6 +859,18 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 	return lazykbest(chart, m), '', chart
 
 
+cdef list taglabels(Grammar grammar, str tag, str word):
+	"""List the labels of the form tag@... for a word, as mapped to itself."""
+	it = grammar.lexicalbyword.find(word.encode('utf8'))
+	if it == grammar.lexicalbyword.end():  # cf. parsers
+		it = grammar.lexicalbyword.find(word.lower().encode('utf8'))
+	if it == grammar.lexicalbyword.end():
+		return []
+	return [grammar.selfmapping[grammar.lexical[n].lhs]
+			for n in dereference(it).second
+			if grammar.tolabel[grammar.lexical[n].lhs].startswith(tag + '@')]
+
+
 cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 	"""Recursively calculate probability of a derivation.
 
-- 
2.43.0


From e7e5c40bdf873b0c25c62a590860576d3485ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 096/172] fix: spans of discontinuous substitution sites in
 fragments of derivations

---
 discodop/disambiguation.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 5d437f1..9959d13 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -20,7 +20,7 @@ from . import plcfrs, _fragments
 from .tree import Tree, ParentedTree, ImmutableTree, writediscbrackettree
 from .kbest import lazykbest
 from .kbest cimport getderiv
-from .grammar import lcfrsproductions, spinal, REMOVEDEC
+from .grammar import lcfrsproductions, ranges, spinal, REMOVEDEC
 from .treetransforms import (addbitsets, unbinarize, canonicalize,
 		collapseunary, mergediscnodes, binarize)
 from .bit import pyintnextset, pyintbitcount
@@ -762,6 +762,12 @@ def frontiernt(node):
 	return '@' not in node.label
 
 
+def spanstr(node):
+	"""Return the span of a node as closed intervals ``n:m``."""
+	return ' '.join('%d:%d' % (min(a), max(a))
+			for a in ranges(sorted(node.leaves())))
+
+
 def splitfrag(node):
 	"""Return a copy of a tree with subtrees labeled without '@' removed."""
 	children = []
@@ -773,7 +779,7 @@ def splitfrag(node):
 					else splitfrag(child))
 		else:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[spanstr(child)]))
 	return Tree(node.label, children)
 
 
@@ -1069,7 +1075,7 @@ def splitostagfrag(node, sent):
 				and node.label.endswith(child.label + ']')):
 			# this is a substitution site, or a foot node:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[spanstr(child)]))
 		elif '[' in child.label and '[' not in node.label:
 			# this is an adjunction site, skip aux tree until foot node:
 			while '[' in child.label:
@@ -1084,8 +1090,7 @@ def splitostagfrag(node, sent):
 						if isinstance(child[0], int)
 						else splitostagfrag(child, sent))
 			else:  # this is a substitution site
-				children.append(
-						'%d:%d' % (min(child.leaves()), max(child.leaves())))
+				children.append(spanstr(child))
 		else:
 			children.append(
 					ParentedTree(child.label,
-- 
2.43.0


From eb6e79112eef3b06ba04e43e30c9b32f99373119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 097/172] fix: number of fragments in shortest derivations,
 avoid rounding errors

---
 discodop/disambiguation.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 9959d13..be36f04 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -155,14 +155,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				if entry.second < maxprob:
 					maxprob = entry.second
 			for entry in chart.rankededges[root]:
-				if entry.second == maxprob:
+				if numfrags(entry.second) == numfrags(maxprob):
 					entries.push_back(entry)
 			chart.rankededges[root] = entries
 		elif chart.derivations:
 			_, maxprob = min(chart.derivations, key=itemgetter(1))
 			chart.derivations = [(deriv, prob)
 					for deriv, prob in chart.derivations
-					if prob == maxprob]
+					if numfrags(prob) == numfrags(maxprob)]
 
 	if not dopreduction:  # Double-DOP
 		for n in range(chart.rankededges[root].size()):
@@ -181,7 +181,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				# probability in a different model.
 				newprob = exp(-getderivprob(
 						root, entry.first, chart, sent))
-				score = (int(prob / log(0.5)), newprob)
+				score = (-numfrags(prob), newprob)
 				if treestr not in derivlen or score > derivlen[treestr]:
 					derivlen[treestr] = score
 					derivs[treestr] = n
@@ -206,7 +206,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			if shortest:
 				entry = chart.rankededges[root][n]
 				newprob = getderivprob(root, entry.first, chart, sent)
-				score = (int(prob / log(0.5)), exp(-newprob))
+				score = (-numfrags(prob), exp(-newprob))
 				if treestr not in derivlen or (not dopreduction
 						and score > derivlen[treestr]):
 					derivlen[treestr] = score
@@ -281,6 +281,11 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	return results, msg
 
 
+cdef int numfrags(Prob prob):
+	"""Convert log probability of model 'shortest' to number of fragments."""
+	return int(round(prob / log(2)))
+
+
 def testconstraints(treestr, require, block):
 	"""Test if tree satisfies constraints of required/blocked labeled spans."""
 	spans = {(node.label, tuple(sorted(node.leaves())))
@@ -474,7 +479,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n,
 			treestr = recoverfragments(
 					root, entry.first, chart2, backtransform)
 		if treestr in nmostlikelytrees and treestr not in result:
-			result[treestr] = (-abs(int(s / log(0.5))), parsetreeprob[treestr])
+			result[treestr] = (-numfrags(s), parsetreeprob[treestr])
 			if backtransform is None:
 				derivs[treestr] = fragmentsinderiv_str(
 						deriv, chart2, backtransform)
-- 
2.43.0


From 7f9cdeb51762eb26fa328ff2154237f4dde64024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 098/172] fix: simple SL-DOP: do not confuse derivations with
 the same frontiers

---
 discodop/disambiguation.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index be36f04..967fd1d 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -520,7 +520,6 @@ cdef sldop_simple(int sldop_n, Chart chart, require=None, block=None):
 		for n in range(<signed>chart.rankededges[root].size()):
 			entry = chart.rankededges[root][n]
 			deriv = <bytes>getderiv(root, entry.first, chart).decode('utf8')
-			deriv = str(unbinarize(Tree(deriv), childchar='}'))
 			tree = recoverfragments(root, entry.first, chart, backtransform)
 			keys[deriv] = n
 			derivations[deriv] = entry.second
-- 
2.43.0


From b8ce017107b5c2dc7677884273286fb2be629d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 099/172] fix: words containing '}<' in Double-DOP grammars

---
 discodop/parser.py | 10 +++++-----
 discodop/runexp.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 8eef6d2..816f888 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -667,14 +667,14 @@ class Parser(object):
 					# recoverfragments() relies on this mapping to identify
 					# binarization nodes. treeparsing() relies on this as well.
 					stage.grammar.getmapping(
-							None, neverblockre=re.compile('.+}<'),
+							None, neverblockre=re.compile('^[^@]+}<'),
 							startidx=orignumlabels)
 					if n and stage.prune:
 						stage.grammar.getmapping(
 								prm.stages[prevn].grammar,
 								striplabelre=None if prm.stages[prevn].dop
 									else re.compile('@.+$'),
-								neverblockre=re.compile('.+}<'),
+								neverblockre=re.compile('^[^@]+}<'),
 								splitprune=not stage.split
 									and prm.stages[prevn].split,
 								markorigin=prm.stages[prevn].markorigin,
@@ -746,11 +746,11 @@ def readgrammars(resultdir, stages, postagging=None,
 				# recoverfragments() relies on this mapping to identify
 				# binarization nodes. treeparsing() relies on this as well.
 				_ = gram.getmapping(
-						None, neverblockre=re.compile('.+}<'), debug=False)
+						None, neverblockre=re.compile('^[^@]+}<'), debug=False)
 				if n and stage.prune:
 					_ = gram.getmapping(stages[prevn].grammar,
 						striplabelre=re.compile('@.+$'),
-						neverblockre=re.compile('^#[0-9]+|.+}<'),
+						neverblockre=re.compile('^#[0-9]+|^[^@]+}<'),
 						splitprune=not stage.split and stages[prevn].split,
 						markorigin=stages[prevn].markorigin,
 						mapping=stage.mapping, debug=False)
@@ -1070,7 +1070,7 @@ def main():
 		stages.append(DictObj(stage))
 		if backtransform:
 			_ = stages[-1].grammar.getmapping(None,
-				neverblockre=re.compile('.+}<'), debug=False)
+				neverblockre=re.compile('^[^@]+}<'), debug=False)
 		prm = DictObj(stages=stages, verbosity=int(opts.get('--verbosity', 2)),
 				transformations=None, binarization=None, postagging=None,
 				relationalrealizational=None)
diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..17fe81a 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -448,12 +448,12 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 				# recoverfragments() relies on this mapping to identify
 				# binarization nodes. treeparsing() relies on this as well.
 				msg = gram.getmapping(
-						None, neverblockre=re.compile('.+}<'))
+						None, neverblockre=re.compile('^[^@]+}<'))
 				if n and stage.prune:
 					msg = gram.getmapping(stages[prevn].grammar,
 							striplabelre=None if stages[prevn].dop
 								else re.compile('@.+$'),
-							neverblockre=re.compile('.+}<'),
+							neverblockre=re.compile('^[^@]+}<'),
 							splitprune=not stage.split and stages[prevn].split,
 							markorigin=stages[prevn].markorigin,
 							mapping=stage.mapping)
-- 
2.43.0


From b25e14e0a7da42d9c93fe01e3a9760dfd945d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:29 +0000
Subject: [PATCH 100/172] fix: fragments of derivations with words that contain
 parentheses

---
 discodop/disambiguation.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 967fd1d..b692d4e 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -17,7 +17,8 @@ from itertools import count
 from functools import partial
 from collections import defaultdict
 from . import plcfrs, _fragments
-from .tree import Tree, ParentedTree, ImmutableTree, writediscbrackettree
+from .tree import (Tree, ParentedTree, ImmutableTree, writediscbrackettree,
+		escape)
 from .kbest import lazykbest
 from .kbest cimport getderiv
 from .grammar import lcfrsproductions, ranges, spinal, REMOVEDEC
@@ -728,7 +729,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %s)' % (
 				chart.grammar.tolabel[chart.label(v)].split('@')[0],
 				('%d=%s' % (chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)])
+					escape(chart.sent[chart.lexidx(child.edge)]))
 					if '@' in chart.grammar.tolabel[chart.label(v)]
 					else yieldranges(chart.indices(v)))))
 	result.append((
@@ -754,7 +755,7 @@ cdef fragmentsinderiv_re_(ItemNo v, RankedEdge deriv, Chart chart,
 				'(%s %d=%s)' % (
 					chart.grammar.tolabel[chart.label(v)],
 					chart.lexidx(child.edge),
-					chart.sent[chart.lexidx(child.edge)]),
+					escape(chart.sent[chart.lexidx(child.edge)])),
 				'rel. freq: %g/%g; weight: %g' % (
 					lexcount,
 					chart.grammar.freqmass[chart.label(v)],
@@ -1073,7 +1074,7 @@ def splitostagfrag(node, sent):
 	# FIXME: hopefully this can be simplified...
 	for child in node:
 		if not isinstance(child, Tree):
-			children.append('%d=%s' % (child, sent[child]))
+			children.append('%d=%s' % (child, escape(sent[child])))
 		elif '@' not in child.label or (
 				'[' not in child.label and '[' in node.label
 				and node.label.endswith(child.label + ']')):
@@ -1090,7 +1091,7 @@ def splitostagfrag(node, sent):
 					child = child[1]
 			if '@' in child.label:  # add rest of initial tree
 				children.extend(
-						['%d=%s' % (child[0], sent[child[0]])]
+						['%d=%s' % (child[0], escape(sent[child[0]]))]
 						if isinstance(child[0], int)
 						else splitostagfrag(child, sent))
 			else:  # this is a substitution site
@@ -1098,7 +1099,7 @@ def splitostagfrag(node, sent):
 		else:
 			children.append(
 					ParentedTree(child.label,
-						['%d=%s' % (child[0], sent[child[0]])])
+						['%d=%s' % (child[0], escape(sent[child[0]]))])
 					if isinstance(child[0], int)
 					else splitostagfrag(child, sent))
 	return Tree(node.label, children)
-- 
2.43.0


From 09c8e0692bd7d23b28d566bbb3cc99784f12c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 101/172] fix: most constituents correct parse should not drop
 words when contributions are zero

---
 discodop/disambiguation.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index b692d4e..3c2f430 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -369,7 +369,7 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 				if tablecell:
 					maxlabel, maxscore = max(tablecell.items(),
 							key=itemgetter(1))
-				maxcombscore = 0.0
+				maxcombscore = -1.0
 				maxleft = None
 				for spans in table[start][1:spanlen]:
 					for leftspan in spans:
@@ -383,6 +383,8 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 							if score > maxcombscore:
 								maxcombscore = score
 								maxleft = leftspan
+				if maxleft is None:
+					maxcombscore = 0.0
 				score = maxscore / sentprob
 				contribution = score - labda * (1 - score)
 				if contribution < 0:
-- 
2.43.0


From cddf92aa21ce4ffe05e46efff50f02f071c75a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 102/172] fix: exact DOP parse probability with capitalized
 words, use lowercase version like parsers

---
 discodop/disambiguation.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 3c2f430..69a77b2 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -969,6 +969,8 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 		word = sent[n]
 		chart[1 << n] = cell = {}
 		it = fine.lexicalbyword.find(word.encode('utf8'))
+		if it == fine.lexicalbyword.end():  # cf. parsers
+			it = fine.lexicalbyword.find(word.lower().encode('utf8'))
 		if it == fine.lexicalbyword.end():
 			cell[fine.toid[pos]] = -0.0
 			continue
-- 
2.43.0


From 04a76e6cd03ae86e99712186a54966c6c9c08584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 103/172] fix: looking up a rule that is not part of the
 grammar should raise an error

---
 discodop/_grammar.pxi   | 24 ++++++++++++++----------
 discodop/containers.pxd |  1 +
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 3f87e3e..193bd44 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -944,35 +944,39 @@ cdef class Grammar:
 			key.rhs2 = coarse.toid[striplabelre.sub(
 					'', self.tolabel[rule.rhs2], 1)]
 			key.args, key.lengths = rule.args, rule.lengths
-			m = coarse.rulenos[key]
+			m = coarse._getruleno(key)
 			rulemapping[m].append(rule.no)
 		if self is coarse:
 			self.selfrulemapping = rulemapping
 		else:
 			self.rulemapping = rulemapping
 
+	cdef uint32_t _getruleno(self, Rule key) except? 0:
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError('rule not in grammar')
+		return dereference(it).second
+
 	cpdef noderuleno(self, node):
 		"""Get rule no given a node of a continuous tree."""
 		cdef Rule key
-		key.lhs = self.toid.ob[node.label.encode('utf8')]
-		key.rhs1 = self.toid.ob[node[0].label.encode('utf8')]
+		key.lhs = self.toid[node.label]
+		key.rhs1 = self.toid[node[0].label]
 		if len(node) > 1:
-			key.rhs2 = self.toid.ob[node[1].label.encode('utf8')]
+			key.rhs2 = self.toid[node[1].label]
 			key.args, key.lengths = 0b10, 0b10
 		else:
 			key.rhs2 = 0
 			key.args, key.lengths = 0b0, 0b1
-		return self.rulenos[key]
+		return self._getruleno(key)
 
 	cpdef getruleno(self, tuple r, tuple yf):
 		"""Get rule no given a (discontinuous) production."""
 		cdef Rule key
-		cdef bytes lhs = r[0].encode('utf8')
-		cdef bytes rhs1 = r[1].encode('utf8')
-		key.lhs, key.rhs1 = self.toid.ob[lhs], self.toid.ob[rhs1]
-		key.rhs2 = self.toid.ob[r[2].encode('utf8')] if len(r) > 2 else 0
+		key.lhs, key.rhs1 = self.toid[r[0]], self.toid[r[1]]
+		key.rhs2 = self.toid[r[2]] if len(r) > 2 else 0
 		getyf(yf, &key.args, &key.lengths)
-		return self.rulenos[key]
+		return self._getruleno(key)
 
 	def incrementrulecount(self, int ruleno, int freq):
 		"""Add freq to observed count of a rule.
diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index ea1743e..a8cd844 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -565,6 +565,7 @@ cdef class Grammar:
 	cdef _indexrules(self, vector[ProbRule *]& dest, int idx, int filterlen,
 			int orignumrules)
 	cpdef rulestr(self, int n)
+	cdef uint32_t _getruleno(self, Rule key) except? 0
 	cpdef noderuleno(self, node)
 	cpdef getruleno(self, tuple r, tuple yf)
 	cdef yfstr(self, ProbRule rule)
-- 
2.43.0


From bf71070ab87f25b9cf750cdb481d92fd9e508fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 104/172] fix: osTAG reduction: do not truncate weights of
 rules to integers

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index e1c9cd0..2c20aec 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -601,7 +601,7 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 		for ((lhs, _), (token, )), weight in extrarules.items():
 			lexicalrules[token][lhs] += weight
 	# NB: assumes normalization is taken care of in Grammar() constructor
-	rulesstr = ''.join('%s\t%d\n' % (rule, weight)
+	rulesstr = ''.join('%s\t%s\n' % (rule, weight)
 			for rule, weight in rules.items())
 	lexicon = ''.join('%s\t%s\n' % (word,
 			'\t'.join('%s %g' % (lhs, weight)
-- 
2.43.0


From 8dcdde4e3517ae7d836bd545d97fc842be9f170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 105/172] fix: osTAG reduction: add weight of auxiliary tree
 once, not once for each of its nodes

---
 discodop/grammar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 2c20aec..f61f930 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -587,11 +587,11 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 							'\t'.join(child.label for child in node),
 							yfstr)
 					rules[rule] += 1
-			# rule type 3 (type 4 eliminated):
-			# M => N(M) s.t. N is an aux root node
-			for m in adjsites[REMOVEDEC.sub('', tree.label)]:
-				rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
-				rules[rule] += weight
+		# rule type 3 (type 4 eliminated):
+		# M => N(M) s.t. N is an aux root node
+		for m in adjsites[REMOVEDEC.sub('', tree.label)]:
+			rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
+			rules[rule] += weight
 		cnt += 1
 		if cnt % 100 == 0:
 			logging.info('proccessed aux tree %d / %d', cnt, len(auxtrees))
-- 
2.43.0


From 8582474dde048b1a52785f45f9daa3705883abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 106/172] fix: inducing a TAG from fragments should not corrupt
 words ending in a number and an equals sign

---
 discodop/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f61f930..828eaef 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -425,9 +425,9 @@ def inducetagfromtsg(elemtrees):
 								extractinit(tree, rootcand, footcand),
 								rootcand, footcand, sent))[:-1]
 						newinittrees[pygetsent(re.sub(
-								r'(\d+)=\)', r'\1:\1)', init))] = weight
+								r' (\d+)=\)', r' \1:\1)', init))] = weight
 						auxtrees[pygetsent(re.sub(
-								r'(\d+)=\)', r'\1:\1)', aux))] = weight
+								r' (\d+)=\)', r' \1:\1)', aux))] = weight
 						extractedadjunction = True
 						break
 		if not extractedadjunction:
-- 
2.43.0


From 0df5ab7e6d71c5ccc85a1f0420af858674b16b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 107/172] fix: parser: look up words with parentheses as they
 are stored in the lexicon

---
 discodop/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 816f888..c60afbe 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -21,7 +21,7 @@ from . import plcfrs, pcfg, disambiguation
 from . import grammar, treetransforms, treebanktransforms
 from .containers import Grammar, Vocabulary, Ctrees
 from .coarsetofine import prunechart
-from .tree import ParentedTree, escape, ptbescape
+from .tree import ParentedTree, ptbescape
 from .eval import alignsent
 from .lexicon import replaceraretestwords, UNKNOWNWORDFUNC, UNK
 from .treebank import writetree, handlefunctions
@@ -268,7 +268,7 @@ class Parser(object):
 			sent = xsent = [ptbescape(token) for token in sent]
 		else:
 			xsent = list(sent)
-			sent = [escape(token) for token in sent]
+			sent = list(sent)
 		if self.postagging and self.postagging.method == 'unknownword':
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
-- 
2.43.0


From c536f0558491c6d0db9a99c47b3a85beb9f735a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 108/172] fix: parser --simple: produce partial parse for
 sentence that cannot be parsed

---
 discodop/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index c60afbe..150cf00 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -484,10 +484,11 @@ class Parser(object):
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
 				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
-				from .runexp import dobinarization
-				tree = dobinarization([tree], [sent],
-						self.prm.binarization,
-						self.prm.relationalrealizational, logmsg=False)[0]
+				if self.prm.binarization is not None:
+					from .runexp import dobinarization
+					tree = dobinarization([tree], [sent],
+							self.prm.binarization,
+							self.prm.relationalrealizational, logmsg=False)[0]
 				parsetrees = [(str(tree), prob, None)]
 				partialparse = True
 			if stage.name in (stage.prune for stage in self.stages):
-- 
2.43.0


From 1a8d6304a734d255f22f8007faa623a280e57f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 109/172] fix: parser: when asked for k-best parses, do not
 stop parsing at the first complete parse

---
 discodop/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 150cf00..d46c10f 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -165,6 +165,7 @@ class Parser(object):
 		self.verbosity = prm.verbosity
 		self.funcclassifier = funcclassifier
 		self.headrules = None
+		self.exhaustive = False  # whether to look for more than 1 derivation
 		if prm.binarization and prm.binarization.headrules and os.path.exists(
 				prm.binarization.headrules):
 			# FIXME: store headrules in grammar? non-essential
@@ -346,7 +347,7 @@ class Parser(object):
 				elif stage.mode == 'plcfrs':
 					chart, msg1 = plcfrs.parse(
 							sent, stage.grammar, tags=tags, start=root,
-							exhaustive=stage.dop or (
+							exhaustive=stage.dop or self.exhaustive or (
 								n + 1 != len(self.stages)
 								and self.stages[n + 1].prune),
 							whitelist=whitelist,
@@ -1090,6 +1091,7 @@ def main():
 		parser = Parser(params)
 		morph = params.morphology
 		del args[:1]
+	parser.exhaustive = numparses > 1
 	with openread(args[0] if len(args) >= 1 else '-') as infile:
 		with io.open(args[1] if len(args) == 2 and args[1] != '-'
 				else sys.stdout.fileno(), 'w', encoding='utf8') as out:
-- 
2.43.0


From 7542d51343652b8d2b6188a190038dd8ceadd45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 110/172] fix: runexp: experiments with dop='ostag' crashed
 because there is no list of productions

---
 discodop/runexp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index 17fe81a..f457ca0 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -414,9 +414,12 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 			else:
 				raise ValueError('unrecognized DOP model: %r' % stage.dop)
 			nodes = sum(len(list(a.subtrees())) for a in traintrees)
-			msg = grammar.grammarinfo(xgrammar)
 			if rules is None:
+				msg = grammar.grammarinfo(xgrammar)
 				rules, lex = grammar.writegrammar(xgrammar)
+			else:
+				msg = '%d initial trees, %d auxiliary trees' % (
+						len(inittrees), len(auxtrees))
 			rulesfile = '%s/%s.rules.gz' % (resultdir, stage.name)
 			lexiconfile = '%s/%s.lex.gz' % (resultdir, stage.name)
 			with codecs.getwriter('utf8')(gzip.open(rulesfile, 'wb',
-- 
2.43.0


From 852da4fd1530a5529631f421cfcc453cab8a22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 111/172] fix: parser: crash on sentence without parse when
 there are no head rules

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index d46c10f..f3580cc 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -569,7 +569,8 @@ class Parser(object):
 					in enumerate(tags or (len(sent) * ['NN']))])
 			parsetree = ParentedTree(
 					'(%s %s)' % (stage.grammar.start, default))
-			applyheadrules(parsetree, self.headrules)
+			if self.headrules:
+				applyheadrules(parsetree, self.headrules)
 		noparse = True
 		prob = 1.0
 		return parsetree, prob, noparse
-- 
2.43.0


From 2697a5eae96a3fd32c07c1dddfe1a597738e8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 112/172] fix: parser: multiply probabilities of partial parses
 correctly when only some have a number of subtrees

---
 discodop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index f3580cc..57339ba 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -819,10 +819,10 @@ def probstr(prob):
 
 def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
-	if prob1 == 1:
-		return prob2
-	elif isinstance(prob2, tuple):
-		return (prob1[0] + prob2[1], prob1[1] * prob2[1])
+	if isinstance(prob1, tuple) or isinstance(prob2, tuple):
+		subtrees1, prob1 = prob1 if isinstance(prob1, tuple) else (0, prob1)
+		subtrees2, prob2 = prob2 if isinstance(prob2, tuple) else (0, prob2)
+		return (subtrees1 + subtrees2, prob1 * prob2)
 	return prob1 * prob2
 
 
-- 
2.43.0


From f469ac9a2abd2e841ae2714a5fdcb32e46f302d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 113/172] fix: parser: division by zero when there are no
 sentences to parse

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 57339ba..0b1b67c 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -1015,7 +1015,7 @@ def doparsing(parser, infile, out, printprob, oneline, usetags, numparses,
 			times.append(sec)
 			sys.stderr.flush()
 			out.flush()
-	print('average time per sentence', sum(times) / len(times),
+	print('average time per sentence', sum(times) / max(1, len(times)),
 			'\nunparsed sentences:', unparsed,
 			'\nfinished',
 			file=sys.stderr)
-- 
2.43.0


From b1a699746c94c3dc566c308281d7113db449fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 114/172] fix: DrawTree: text drawing with function tags had an
 extra separator for PTB brackets

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 4974def..381cec4 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1540,7 +1540,8 @@ class DrawTree(object):
 				else:
 					newtext.append('')
 				if func or (funcsep and line.endswith(funcsep)
-						and isinstance(node, Tree)):
+						and isinstance(node, Tree)
+						and node.label not in PTBPUNC):
 					if not seensep:
 						newtext[-1] += funcsep
 						seensep = True
-- 
2.43.0


From 468d91b2fce7192e2aea608bd04d0cfb447138ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 115/172] fix: DrawTree: escape function tags in SVG, labels in
 HTML attributes

---
 discodop/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 381cec4..f0b6892 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1415,7 +1415,7 @@ class DrawTree(object):
 			if func:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
-							else 'black', func)
+							else 'black', htmlescape(func))
 			result[-1] += '</text>'
 		result += ['</svg>']
 		return '\n'.join(result)
@@ -1487,7 +1487,7 @@ class DrawTree(object):
 					cat, morph = cat.rsplit(morphsep, 1)
 			if isinstance(node, Tree):
 				labeledspan = '%s %s' % (
-						node.label,
+						htmlescape(node.label),
 						','.join(str(a[0]) if len(a) == 1
 							else ('%d-%d' % (a[0], a[-1]))
 							for a in ranges(sorted(node.leaves()))))
-- 
2.43.0


From 102df54d452b09613db48f54db34f417a198718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 116/172] fix: DrawTree: escape words and function tags for
 LaTeX; draw words instead of indices with tikzqtree

---
 discodop/tree.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index f0b6892..2bb9f71 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1686,11 +1686,11 @@ class DrawTree(object):
 								and label not in PTBPUNC):
 							cat, func = label.split(funcsep, 1)
 							func = r'%s\textcolor{%s}{%s}' % (
-									funcsep, funccolor, func)
+									funcsep, funccolor, latexescape(func))
 						label = latexlabel(cat)
 					else:
 						color = leafcolor
-						label = node
+						label = latexescape(node)
 					if n not in self.highlight:
 						color = 'black'
 					line.append(r'\node (n%d) { \textcolor{%s}{%s}%s };' % (
@@ -1727,11 +1727,11 @@ class DrawTree(object):
 						and label not in PTBPUNC):
 					cat, func = label.split(funcsep, 1)
 					func = r'%s\textcolor{%s}{%s}' % (
-							funcsep, funccolor, func)
+							funcsep, funccolor, latexescape(func))
 				label = latexlabel(cat)
 			else:
 				color = leafcolor
-				label = node
+				label = latexescape(node)
 			if n not in self.highlight:
 				color = 'black'
 			result.append(r'	(%d, %d) node (n%d) { \textcolor{%s}{%s}%s }'
@@ -1768,7 +1768,11 @@ class DrawTree(object):
 		reserved_chars = re.compile('([#$%&~_{}])')
 
 		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
-		escaped = re.sub(reserved_chars, r'\\\1', pprint)
+		escaped = INDEXRE.sub(
+				lambda x: '{%s}' % latexescape(
+					'...' if self.sent[int(x.group(1))] is None
+					else self.sent[int(x.group(1))]),
+				re.sub(reserved_chars, r'\\\1', pprint))
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
 			'\\begin{tikzpicture}',
@@ -1867,9 +1871,17 @@ class DrawDependencies(object):
 		return self.svg()
 
 
+def latexescape(text):
+	"""Escape characters with a special meaning in LaTeX."""
+	return re.sub(r'[\\#$%&~_^{}]', lambda x: {
+			'\\': r'\textbackslash{}',
+			'~': r'\textasciitilde{}',
+			'^': r'\textasciicircum{}'}.get(x.group(), '\\' + x.group()), text)
+
+
 def latexlabel(label):
 	"""Quote/format label for latex."""
-	newlabel = label.replace('$', r'\$').replace('_', r'\_')
+	newlabel = re.sub('([#$%&_])', r'\\\1', label)
 	# turn binarization marker into subscripts in math mode
 	if '|' in newlabel:
 		cat, siblings = newlabel.split('|', 1)
@@ -1882,7 +1894,8 @@ def latexlabel(label):
 			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
 					cat, siblings)
 	else:
-		newlabel = newlabel.replace('<', '$<$').replace('>', '$>$')
+		newlabel = newlabel.replace('^', r'\textasciicircum{}').replace(
+				'<', '$<$').replace('>', '$>$')
 	return newlabel
 
 
-- 
2.43.0


From ba7ebcb4f34e2e5337adc92a8426d56570f3a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 117/172] fix: DrawTree: do not drop separator when label ends
 with it

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 2bb9f71..3c22890 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1412,7 +1412,7 @@ class DrawTree(object):
 					'<tspan style="fill: %s; ">%s</tspan>' % (
 					x, y, fontsize,
 					color, htmlescape(cat)))
-			if func:
+			if func is not None:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
 							funcsep, funccolor if n in self.highlightfunc
 							else 'black', htmlescape(func))
@@ -1499,11 +1499,11 @@ class DrawTree(object):
 			else:
 				newtext.append('<font color="%s">%s</font>' % (
 						color, cat))
-			if func:
+			if func is not None:
 				newtext[-1] += ('%s<span class=f '
 						'data-id="%s_%d" data-s="%s">%s</span>'
 						% (funcsep, nodeprops, n, labeledspan, func))
-			if morph:
+			if morph is not None:
 				newtext[-1] += ('%s<span class=m '
 						'data-id="%s_%d" data-s="%s">%s</span>'
 						% (morphsep, nodeprops, n, labeledspan, morph))
-- 
2.43.0


From 93fc3882b07161e35d56d7d789e75757019daa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 118/172] fix: DrawDependencies: escape words, tags and labels

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3c22890..bd7dadc 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1833,12 +1833,12 @@ class DrawDependencies(object):
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); "'
 					'>%s</text>' % (
-					n, xpos[n], height - wordheight, n, word))
+					n, xpos[n], height - wordheight, n, htmlescape(word)))
 			result.append('<text class="tag w%d" x=%d y=%d '
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); " '
 					'fill=blue text-anchor=middle>%s</text>' % (
-					n, xpos[n], height - 4, n, pos))
+					n, xpos[n], height - 4, n, htmlescape(pos)))
 
 		for n, deplabel, head in self.deps:
 			start = xpos[head] + random.randint(0, 4) * 5
@@ -1858,7 +1858,7 @@ class DrawDependencies(object):
 					"marker-end='url(#head)'/>" % (head, n, path))
 			result.append('<text class="dependency w%d w%d" x=%d y=%d '
 					'fill=green text-anchor=middle>%s</text>' % (
-						head, n, mid, arrow + 15, deplabel))
+						head, n, mid, arrow + 15, htmlescape(deplabel)))
 		width = x + 30
 		result.insert(0, '<svg xmlns="http://www.w3.org/2000/svg" '
 				'width=%d height=%d style="font-family: monospace; ">' % (
-- 
2.43.0


From 71b1b0d5ccdf8c1e847cd47a8776ec01ef0c31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 119/172] fix: treebanktransforms: APPEND-MORPH always failed
 and could not be reversed

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..3f6c312 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,11 +153,11 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a.label += STATESPLIT + morph
+				a.label += '/' + morph
 		elif name == 'MORPH-NODE':  # insert node w/morph. features above POS
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
-- 
2.43.0


From 5d00c88a1a99f338e70b5fec3ed4ca7fe10b8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 120/172] fix: treebanktransforms: splitIN, splitIN4 failed on
 preposition directly under root

---
 discodop/treebanktransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 3f6c312..15277cd 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -525,8 +525,9 @@ def ptbtransforms(name, tree, sent):
 					and (base(node.parent.parent, 'N')
 						or base(node.parent.parent, 'ADJP'))):
 				node.label += STATESPLIT + 'Q'
-			elif node.parent.parent.label[0] == 'S' and not base(
-					node.parent.parent, 'SBAR'):
+			elif (node.parent.parent is not None
+					and node.parent.parent.label[0] == 'S'
+					and not base(node.parent.parent, 'SBAR')):
 				if base(node.parent, 'SBAR'):
 					node.label += STATESPLIT + 'SCC'
 				elif not base(node.parent, 'NP') and not base(
@@ -1634,7 +1635,7 @@ def labels(tree):
 
 def base(node, match):
 	"""Test whether ``node.label`` equals ``match`` after stripping features."""
-	return (node.label == match
+	return node is not None and (node.label == match
 			or node.label.startswith(match + STATESPLIT)
 			or node.label.startswith(match + '-'))
 
-- 
2.43.0


From d967fe71aca10a7e7adc8b180ab2dbca2eac65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 121/172] fix: treebanktransforms: POS-PART always failed

---
 discodop/treebanktransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 15277cd..050e6b5 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -297,7 +297,8 @@ def negratransforms(name, tree, sent):
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
 		for a in tree.subtrees(
-				lambda n: any(function(x) == 'SVP' for x in n)):
+				lambda n: any(function(x) == 'SVP' for x in n
+					if isinstance(x, Tree))):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
-- 
2.43.0


From 6044cc549faf61b32e5b89535433d4a64a0c6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 122/172] fix: treebanktransforms: MORPH-NODE: insert node
 above POS; POS tags were lost when reversed

---
 discodop/treebanktransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 050e6b5..030c455 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -163,8 +163,9 @@ def transform(tree, sent, transformations):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a[:] = [a.__class__(morph,
+				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
+				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
@@ -1313,7 +1314,7 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
 				a.source = ['--'] * 6
-				a.source[MORPH] = a.label
+				a.source[MORPH] = a.label.replace('[', '(').replace(']', ')')
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
-- 
2.43.0


From 832c0874391296654b0d542bf3e5273dd59bae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 123/172] fix: treebanktransforms: addUnary, nladdunary: assign
 node id to new nodes

---
 discodop/treebanktransforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 030c455..df5071d 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -347,6 +347,7 @@ def negratransforms(name, tree, sent):
 			node[:] = [tag]
 			node.source[TAG] = node.label = 'NP'
 			node.source[FUNC] = tag.source[FUNC]
+			node.source[WORD] = '--'
 			node.source[LEMMA] = node.source[MORPH] = '--'
 			tag.source[FUNC] = 'HD'
 	elif name == 'addCase':  # add case features to POS tags
@@ -1139,6 +1140,7 @@ def lassytransforms(name, tree, _sent):
 				tag.source[FUNC] = 'HD'
 			else:
 				tag.source[FUNC] = 'hd'
+			node.source[WORD] = '--'
 			node.source[LEMMA] = node.source[MORPH] = '--'
 	elif name == 'nlelimcnj':  # assign conjuncts the function of the parent
 		for node in tree.subtrees(lambda n: function(n) == 'cnj'):
-- 
2.43.0


From 2052cdeb50cededf8dd6fc5545663f9c89de2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 124/172] fix: treebanktransforms: VP-FIN_NEGRA lost words and
 did not introduce VP

---
 discodop/treebanktransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index df5071d..dcda1f5 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -281,8 +281,9 @@ def negratransforms(name, tree, sent):
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
 				if len(vp) != 1 or vp[0].label != 'VP':
-					s[:] = [a.detach() for a in s if function(a) not in addtovp
-							] + [a.detach() for a in vp]
+					rest = [a for a in s if function(a) not in addtovp]
+					s[:] = []
+					s[:] = rest + ([ParentedTree('VP', vp)] if vp else [])
 		toplevel_s = []
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
-- 
2.43.0


From d0a6c90f064edb9c76b0fd37a9b859c7a65a90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 125/172] fix: treebanktransforms: reversing FUNC-NODE and
 MORPH-NODE discarded attributes of node

---
 discodop/treebanktransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index dcda1f5..e677c18 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1309,21 +1309,22 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n.label.startswith('-')
 					and not n.label.endswith('-')  # -LRB-
 					and n and isinstance(n[0], Tree))):
-				a.source = ['--'] * 6
+				a.source = a.source or a[0].source or ['--'] * 6
 				a.source[FUNC] = a.label[1:]
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'MORPH-NODE':  # nodes with morph. above preterminals
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
+				a.source = a.source or a[0].source or ['--'] * 6
 				a.source[MORPH] = a.label.replace('[', '(').replace(']', ')')
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
+				if not a.source:
+					a.source = ['--'] * 6
 				a.source[LEMMA] = unescape(a[0].label)
 				a.source[TAG] = a.label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
-- 
2.43.0


From cac04e7b77c7f8579afe801c253072581282d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 126/172] fix: treebanktransforms: VP-FIN_WSJ always failed

---
 discodop/treebanktransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index e677c18..188392e 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -493,8 +493,9 @@ def ptbtransforms(name, tree, sent):
 					# FIXME: check which functions should not go in the VP
 					# (pre)modifiers unclear.
 					if 'SBJ' not in functions(child):
-						vp.append(s.pop(child))
-				s.append(vp)
+						vp.append(child.detach())
+				if vp:
+					s.append(vp)
 	elif name == 'MARK-UNARY':  # add -U to unary nodes to avoid cycles
 		for unary in tree.subtrees(lambda n: len(n) == 1
 				and isinstance(n[0], Tree)):
-- 
2.43.0


From 6d642ba737552eff5adf4e3463fc8dc6fdf61522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 127/172] fix: treebanktransforms: FUNC-NODE, MORPH-NODE: keep
 attributes of original node, so that they can be combined

---
 discodop/treebanktransforms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 188392e..5a43ccc 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -152,6 +152,8 @@ def transform(tree, sent, transformations):
 					a[:] = [a.__class__(a.label,
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
+					a[0].source = a.source[:]
+					a[0].source[FUNC] = a.source[WORD] = '--'
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
 			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
@@ -166,6 +168,9 @@ def transform(tree, sent, transformations):
 				a[:] = [a.__class__(a.label,
 						[a.pop() for _ in range(len(a))][::-1])]
 				a.label = morph
+				if a.source:
+					a[0].source = a.source[:]
+					a[0].source[FUNC] = a.source[WORD] = '--'
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
@@ -1310,14 +1315,16 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n.label.startswith('-')
 					and not n.label.endswith('-')  # -LRB-
 					and n and isinstance(n[0], Tree))):
-				a.source = a.source or a[0].source or ['--'] * 6
+				a.source = a[0].source or ['--'] * 6
 				a.source[FUNC] = a.label[1:]
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'MORPH-NODE':  # nodes with morph. above preterminals
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = a.source or a[0].source or ['--'] * 6
+				func = a.source[FUNC] if a.source else '--'
+				a.source = a[0].source or ['--'] * 6
+				a.source[FUNC] = func
 				a.source[MORPH] = a.label.replace('[', '(').replace(']', ')')
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
-- 
2.43.0


From f858105a16c38842ea414755313ebd4110665004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 128/172] fix: treebanktransforms: SBAR, NEST always failed,
 VP-FIN_NEGRA failed with discourse markers

---
 discodop/treebanktransforms.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 5a43ccc..127c2f6 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -293,8 +293,11 @@ def negratransforms(name, tree, sent):
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
-				while function(s[0]) in newlevel:
-					s[:] = [s[0], ParentedTree('S', s[1:])]
+				while (isinstance(s[0], Tree) and len(s) > 1
+						and function(s[0]) in newlevel):
+					rest = s[1:]
+					s[1:] = []
+					s.append(ParentedTree('S', rest))
 					s = s[1]
 					toplevel_s = [s]
 		elif 'CS' in labels(tree):
@@ -321,22 +324,25 @@ def negratransforms(name, tree, sent):
 		# in the annotation, complementizers belong to the first S
 		# in S conjunctions, even when they appear to apply to the whole
 		# conjunction.
-		for s in list(tree.subtrees(lambda n: n.label == 'S'
-				and function(n[0]) in sbarfunc and len(n) > 1)):
+		for s in list(tree.subtrees(lambda n: n.label == 'S' and len(n) > 1
+				and isinstance(n[0], Tree) and function(n[0]) in sbarfunc)):
 			s.label = 'SBAR'
-			s[:] = [s[0], ParentedTree('S', s[1:])]
+			rest = s[1:]
+			s[1:] = []
+			s.append(ParentedTree('S', rest))
 	elif name == 'NEST':  # introduce nested structures for modifiers
 		# (iterated adjunction instead of sister adjunction)
 		adjunctable = {'NP'}  # PP AP VP
 		for a in list(tree.subtrees(lambda n: n.label in adjunctable
-				and any(function(x) == 'MO' for x in n))):
+				and any(function(x) == 'MO' for x in n if isinstance(x, Tree)))):
 			modifiers = [x for x in a if function(x) == 'MO']
 			if min(n for n, x in enumerate(a) if function(x) == 'MO') == 0:
 				modifiers[:] = modifiers[::-1]
-			while modifiers:
+			while modifiers and len(a) > 1:
 				modifier = modifiers.pop()
-				a[:] = [ParentedTree(a.label,
-						[x for x in a if x != modifier]), modifier]
+				rest = [x for x in a if x is not modifier]
+				a[:] = []
+				a[:] = [ParentedTree(a.label, rest), modifier]
 				a = a[0]
 	# The following transformations as described in Fraser et al (CL, 2013)
 	# http://aclweb.org/anthology/J13-1005
@@ -1195,7 +1201,7 @@ def reversetransform(tree, sent, transformations):
 						and [x.label for x in n].count('NP') == 1
 						and not set(labels(n)) & probably_nk):
 					n.children.sort(key=lambda n: n.label == 'NP')
-					n[:] = n[:1] + n[1][:]
+					n[1][:], n[1:] = [], n[1][:]
 		elif name == 'PP-NP':  # flatten PPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'):
 				if 'NP' in labels(pp) and 'NN' not in labels(pp):
@@ -1207,10 +1213,8 @@ def reversetransform(tree, sent, transformations):
 					or (n.label == 'S' and len(n) == 2
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
-				if sbar[0].label == 'S':
-					sbar[:] = sbar[1:] + sbar[0][:]
-				else:
-					sbar[:] = sbar[:1] + sbar[1][:]
+				n = int(sbar[0].label != 'S')
+				sbar[n][:], sbar[n:n + 1] = [], sbar[n][:]
 		elif name == 'VP-FIN_NEGRA':
 			def mergevp(s):
 				"""Merge finite VP with S level."""
-- 
2.43.0


From d9b6a71deceb71c80ac01237a2dbfb61654db188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 129/172] fix: treebanktransforms: PP-NP failed on PP with a
 single NK child

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 127c2f6..f8d4de0 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -255,7 +255,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in {'NP', 'PN'}):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From 41960fe8449720541437011f3a9ab2ce012184b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 130/172] fix: treebanktransforms: POS-PART failed, lost words
 with multiple particles

---
 discodop/treebanktransforms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index f8d4de0..912dc51 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -306,19 +306,21 @@ def negratransforms(name, tree, sent):
 		for a in toplevel_s:
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
-		for a in tree.subtrees(
+		for a in list(tree.subtrees(
 				lambda n: any(function(x) == 'SVP' for x in n
-					if isinstance(x, Tree))):
+					if isinstance(x, Tree)))):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
 			if any(isinstance(x, Tree) and x.type == HEAD for x in a):
 				hd = [x for x in a
 						if isinstance(x, Tree) and x.type == HEAD].pop()
-				if hd.label != a.label:
+				if hd is not svp and hd.label != a.label:
+					children = a[:]
+					a[:] = []
 					particleverb = ParentedTree(hd.label, [hd, svp])
-					a[:] = [particleverb if x.type == HEAD else x
-										for x in a if function(x) != 'SVP']
+					a[:] = [particleverb if x is hd else x
+							for x in children if x is not svp]
 	elif name == 'SBAR':  # introduce SBAR level
 		sbarfunc = 'CP'.split()
 		# in the annotation, complementizers belong to the first S
@@ -1242,7 +1244,7 @@ def reversetransform(tree, sent, transformations):
 						and 'PTKVZ' in (c.label for c in b
 							if isinstance(c, Tree))
 						and any(c.label == b.label for c in b)):
-						a[n:n + 1] = b[:]
+						b[:], a[n:n + 1] = [], b[:]
 		elif name == 'addUnary':
 			# remove phrasal projections for single tokens
 			# e.g. S => NP => NN becomes S => NN
-- 
2.43.0


From 50261596b8a599d3ff9cf685a0fc94f53532952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 131/172] fix: treebanktransforms: coarse mappings: level 2 for
 negra lacked P_, alpino level 1 had ambiguous label

---
 discodop/treebanktransforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 912dc51..975fb92 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -96,8 +96,8 @@ MAPPINGS = {
 			2: {'S_': {'S', 'VP', 'VZ', 'CO', 'AA', 'CS', 'CVP',
 					'CVZ', 'CCP', 'DL', 'ISU', 'QL'},
 				'N_': {'NP', 'CNP', 'PN', 'MPN', 'NM', 'CH'},
-				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'}},
-				'P_': {'PP', 'CPP', 'CAC'}
+				'A_': {'--', 'AP', 'AVP', 'CAP', 'CAVP', 'MTA'},
+				'P_': {'PP', 'CPP', 'CAC'}},
 			# level 3: no-op, return original treebank labels
 		},
 		'alpino': {
@@ -107,7 +107,7 @@ MAPPINGS = {
 					'SSUB', 'SV1', 'SVAN', 'TI', 'WHQ', 'WHREL', 'WHSUB'}},
 			# level 1: HP (arguments), MP (modifiers)
 			1: {'HP': {'AHI', 'CONJ', 'CP', 'DETP', 'DU', 'INF', 'MWU', 'NP',
-					'OTI', 'PPART', 'PPRES', 'REL', 'SMAIN', 'SSUB', 'SVAN',
+					'OTI', 'PPART', 'PPRES', 'SMAIN', 'SSUB', 'SVAN',
 					'SV1', 'TI', 'WHSUB', 'WHQ'},
 				'MP': {'AP', 'ADVP', 'PP', 'REL', 'WHREL'}},
 			# level 2: S (verbal), N (nominal), A (adjectival),
-- 
2.43.0


From a9927aac524f0b2f382bcbc2ecf2d7e49aa90896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 132/172] fix: treebanktransforms: collapselabels failed on
 labels with punctuation (--, PRT|ADVP)

---
 discodop/treebanktransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 975fb92..963ad11 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1393,10 +1393,11 @@ def collapselabels(trees, _sents=None, tbmapping=None):
 			if node and isinstance(node[0], Tree):
 				# anything not part of the mapping is stripped
 				# (state splits, function tags, &c.)
-				mapping[node.label] = LABELRE.sub(
+				mapping[node.label] = (revmapping.get(node.label)
+						or LABELRE.sub(
 						lambda x: revmapping.get(x.group(), ''),
 						# lambda x: revmapping[x.group()],
-						node.label).replace('-', '').rstrip('^')
+						node.label).replace('-', '').rstrip('^'))
 				assert (mapping[node.label]
 						and mapping[node.label][0].isalpha()), node.label
 				node.label = mapping[node.label]
-- 
2.43.0


From 71a1b62f737f5975f6ea4634424603e6afb5aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 133/172] fix: treebanktransforms: rrtransform failed with
 default arguments; wrong right neighbor of adjunctions

---
 discodop/treebanktransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 963ad11..fe6a0e5 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1469,6 +1469,8 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 			return preterminal, morph, morphlevels
 		return preterminal, None, 0
 	# for each node, collect the functions of closest non-adjunctive sibling
+	ignorefunctions = ignorefunctions or ()
+	ignorecategories = ignorecategories or ()
 	childfuncsl = (prevfunc, ) = ['']
 	for child in tree:
 		if (isinstance(child, Tree) and child.source[FUNC]
@@ -1484,7 +1486,7 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				and child.source[FUNC] not in ignorefunctions
 				and child.label not in ignorecategories):
 			nextfunc = child.source[FUNC]
-		childfuncsr.insert(0, prevfunc)
+		childfuncsr.insert(0, nextfunc)
 	funcstr = ','.join(sorted(child.source[FUNC] for child in tree
 			if isinstance(child, Tree) and child.source[FUNC]
 					and child.source[FUNC] != adjunctionlabel
-- 
2.43.0


From ba6cb8e39846127421bbadf8abd93a6097d4cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 134/172] fix: treebanktransforms: collapselabels failed when
 root node has been binarized

---
 discodop/treebanktransforms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index fe6a0e5..90a145a 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1393,11 +1393,10 @@ def collapselabels(trees, _sents=None, tbmapping=None):
 			if node and isinstance(node[0], Tree):
 				# anything not part of the mapping is stripped
 				# (state splits, function tags, &c.)
-				mapping[node.label] = (revmapping.get(node.label)
-						or LABELRE.sub(
+				mapping[node.label] = labelre.sub(
 						lambda x: revmapping.get(x.group(), ''),
 						# lambda x: revmapping[x.group()],
-						node.label).replace('-', '').rstrip('^'))
+						node.label).replace('-', '').rstrip('^')
 				assert (mapping[node.label]
 						and mapping[node.label][0].isalpha()), node.label
 				node.label = mapping[node.label]
@@ -1405,11 +1404,16 @@ def collapselabels(trees, _sents=None, tbmapping=None):
 	# maps original treebank labels to coarser labels; e.g. NP => X
 	revmapping = {finelabel: coarselabel for coarselabel in tbmapping
 			for finelabel in tbmapping[coarselabel]}
+	# labels with punctuation, such as '--' and 'PRT|ADVP'
+	labelre = re.compile('|'.join([re.escape(label)
+			for label in sorted(revmapping, key=len, reverse=True)
+			if not LABELRE.fullmatch(label)] + [LABELRE.pattern]))
 	# maps labels after binarization and other transformations,
 	# e.g., NP<DT,JJ,NN> => X<X,X,X>
 	mapping = {'Epsilon': 'Epsilon', trees[0].label: trees[0].label}
-	# collect POS tags, will not be changed
+	# collect root label & POS tags, will not be changed
 	for tree in trees:
+		revmapping.setdefault(tree.label, tree.label)
 		for node in tree.subtrees(lambda n: not isinstance(n[0], Tree)):
 			mapping[node.label] = node.label
 			revmapping[node.label] = node.label
-- 
2.43.0


From de8f1733cf4531cde542d96e9cf397df7f7849d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 135/172] fix: treebanktransforms: splitSGapped: decide for
 each S node separately

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 90a145a..927a570 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -627,9 +627,9 @@ def ptbtransforms(name, tree, sent):
 						node.label += STATESPLIT + strip(child.label)
 					break
 	elif name == 'splitSGapped':  # Stanford Parser splitSGapped=3
-		seenPredCat = seenCC = seenS = False
-		seenNP = 0
 		for node in tree.subtrees(lambda n: base(n, 'S')):
+			seenPredCat = seenCC = seenS = False
+			seenNP = 0
 			for child in node:
 				cat2 = child.label
 				if cat2.startswith('NP'):
-- 
2.43.0


From b51a56dc88d661d5f367ecfbca753df34bd59a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 136/172] fix: treebanktransforms: dlevel returned 2 for level
 1

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 927a570..8444f3a 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1623,7 +1623,7 @@ def dlevel(tree, lang='nl'):
 			vcid = node.source[WORD].lstrip('#')
 			for sib in node.parent:
 				if function(sib) == 'su' and hassecedge(sib, 'su', vcid):
-					return 2
+					return 1
 	# 0: simple sentence
 	return 0
 
-- 
2.43.0


From bf97fa0325d512c18ea08c0d2d3c7876de9204b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 137/172] fix: lexicon: getunknownwordmodel: NameError when
 openclassthreshold is 0

---
 discodop/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..3e366e1 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -71,10 +71,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			wordsfortag[tag].add(word)
 			tags[tag] += 1
 			wordtags[word, tag] += 1
-	openclasstags = {}
+	openclasstags, closedclasstags = {}, {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From 4a4ebe636dcb7375245d5f0adc08f446a7bed408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 138/172] fix: lexicon: years and numbers in training set are
 not word signatures

---
 discodop/lexicon.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 3e366e1..5d1590d 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -102,7 +102,12 @@ def getunknownwordmodel(tagged_sents, unknownword,
 	sigs = Counter()
 	for sent in tagged_sents:
 		for n, (word, _) in enumerate(sent):
-			if word not in lexicon:
+			# NB: the cases here should mirror replaceraretrainwords()
+			if YEARRE.match(word):
+				sigs['1970'] += 1
+			elif NUMBERRE.match(word):
+				sigs['000'] += 1
+			elif word not in lexicon:
 				# NB: sig depends on n and lexicon
 				sig = unknownword(word, n, lexicon)
 				sigs[sig] += 1
-- 
2.43.0


From 5c99893b9fa021389ae4260265424a1c83bccf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 139/172] fix: lexicon: only replace years and numbers in test
 sentences when these occur in training set

---
 discodop/lexicon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 5d1590d..96fb871 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -146,9 +146,9 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 	instead. If the returned signature is not part of the grammar, a default
 	one is returned."""
 	for n, word in enumerate(sent):
-		if YEARRE.match(word):
+		if YEARRE.match(word) and ('1970' in sigs or '1970' in lexicon):
 			yield '1970'
-		elif NUMBERRE.match(word):
+		elif NUMBERRE.match(word) and ('000' in sigs or '000' in lexicon):
 			yield '000'
 		elif word in lexicon:
 			yield word
-- 
2.43.0


From 19a526467411efd4e53f118aea68f7bcd79522c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 140/172] fix: Grammar: unary rules in bitpar format had a
 binary yield function

---
 discodop/_grammar.pxi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 193bd44..03cdc7b 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -417,7 +417,7 @@ cdef class Grammar:
 				fields.erase(fields.begin())
 				rule = fields
 				# NB: leave yf at b'<none>'
-				if rule.size() > 1:
+				if rule.size() > 2:
 					cur.args, cur.lengths = 0b10, 0b10
 				else:
 					cur.args, cur.lengths = 0b0, 0b1
-- 
2.43.0


From c630c716741888af46768333a1e8687e9bbc0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 141/172] fix: Grammar: TypeError in error message about
 fan-out of POS tag

---
 discodop/_grammar.pxi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 03cdc7b..556d51d 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -619,7 +619,7 @@ cdef class Grammar:
 					lexrule.lhs = dereference(it).second
 					if self.fanout[lexrule.lhs] != 1:
 						raise ValueError('POS tag %r has fan-out %d, may only'
-								' be 1.' % (self.fanout[lexrule.lhs], tag))
+								' be 1.' % (tag, self.fanout[lexrule.lhs]))
 				w = convertweight(weight.c_str())
 				if w <= 0:
 					raise ValueError('weights should be positive '
-- 
2.43.0


From 1c1be7d48c16eeb11daed27001412daf304610f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 142/172] fix: Grammar: detect conflicting fan-out of symbols
 on right hand side

---
 discodop/_grammar.pxi | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 556d51d..6da9f5d 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -490,6 +490,11 @@ cdef class Grammar:
 					self.maxfanout = rhs1fanout
 			else:
 				cur.rhs1 = dereference(it).second
+				if cur.rhs1 != 0 and self.fanout[cur.rhs1] != rhs1fanout:
+					raise ValueError("conflicting fanouts for symbol "
+						"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+						% (rule[1], self.fanout[cur.rhs1], rhs1fanout,
+						prev[:buf - prev].decode('utf8')))
 			if cur.lhs == 0 or cur.rhs1 == 0:
 				raise ValueError('Epsilon symbol may only occur '
 						'in RHS of lexical rules:\n%r' %
@@ -507,6 +512,11 @@ cdef class Grammar:
 						self.maxfanout = rhs2fanout
 				else:
 					cur.rhs2 = dereference(it).second
+					if cur.rhs2 != 0 and self.fanout[cur.rhs2] != rhs2fanout:
+						raise ValueError("conflicting fanouts for symbol "
+								"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+								% (rule[2], self.fanout[cur.rhs2], rhs2fanout,
+								prev[:buf - prev].decode('utf8')))
 				if cur.rhs2 == 0:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
-- 
2.43.0


From 2e3ad805c3e7512731f64205744f411004ee8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 143/172] fix: Grammar: segfault with rules that have too few
 fields

---
 discodop/_grammar.pxi | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 6da9f5d..72f259d 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -412,6 +412,9 @@ cdef class Grammar:
 				break
 			elif fields.size() == 0:
 				continue
+			elif fields.size() < (3 if self.bitpar else 4):
+				raise ValueError('Not enough fields:\n%r'
+						% prev[:buf - prev].decode('utf8'))
 			if self.bitpar:
 				weight = fields[0]
 				fields.erase(fields.begin())
-- 
2.43.0


From 481ed612a6ed80d153f79f8a8914697de17d2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 144/172] fix: estimates: np.NAN is not available in recent
 versions of numpy

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 43519d14edeb4e12cbda30ddceeb55ff3b4e9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 145/172] fix: plcfrs: do not read estimates out of bounds with
 long sentences

---
 discodop/plcfrs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 51aa138..b4c5048 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -341,6 +341,8 @@ def parse(sent, Grammar grammar, tags=None, bint exhaustive=True,
 	:param beam_delta: the maximum span length to which beam search is applied.
 	:param itemsestimate: the number of chart items to pre-allocate.
 	"""
+	if estimates is not None and len(sent) >= estimates[1].shape[1]:
+		estimates = None  # longer than the maximum length of the estimates
 	if <unsigned>len(sent) < sizeof(COMPONENT.vec) * 8:
 		chart = SmallLCFRSChart(grammar, list(sent), start,
 			itemsestimate=itemsestimate)
-- 
2.43.0


From 88652d164759ca7c59b7a993fcd4cdddee339290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 146/172] fix: estimates: SXlrgaps estimate was not admissible
 for constituents in gaps

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index f631f39..057f834 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -288,7 +288,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(leftfanout, item.length - rightfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs2, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
 					if addright == 0 and lr != item.lr:
 						continue
 					for ga in range(leftfanout - 1, totlen + 1):
@@ -323,7 +323,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(rightfanout, item.length - leftfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs1, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
 					for ga in range(rightfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
 								and ga >= addgaps):
-- 
2.43.0


From 9c2db0c45d2377ef05eecf46222b224f88d9d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 147/172] fix: plcfrs: duplicate edges when item is re-added to
 agenda

---
 discodop/plcfrs.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b4c5048..70b6a94 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -619,6 +619,8 @@ cdef inline bint process_edge(LCFRSItem_fused newitem,
 	cdef bint inagenda, inchart
 	cdef pair[Prob, Prob] scoreprob
 	cdef Prob curprob
+	cdef Edge *edge
+	cdef size_t n
 	# avoid generating code for spurious fused type combinations
 	if ((LCFRSItem_fused is SmallChartItem
 			and LCFRSChart_fused is FatLCFRSChart)
@@ -671,6 +673,15 @@ cdef inline bint process_edge(LCFRSItem_fused newitem,
 			# non-monotonic estimate.
 			logging.warning('WARN: re-adding item to agenda already in chart:'
 					' %s', chart.itemstr(itemidx))
+	if estimatetype == SX or estimatetype == SXlrgaps:
+		# items may have been re-added to the agenda; avoid duplicate edges.
+		for n in range(chart.parseforest[itemidx].size()):
+			edge = &(chart.parseforest[itemidx][n])
+			if edge.rule is not NULL and edge.rule.no == rule.no and (
+					edge.pos.lvec == left.vec
+					if LCFRSItem_fused is SmallChartItem
+					else edge.pos.lidx == leftitemidx):
+				return True
 	# store this edge, regardless of whether the item was new (unary chains)
 	chart.addedge(itemidx, leftitemidx, left, rule)
 	return True
-- 
2.43.0


From 21c2147499aadcecd1bd46be73bcb92300e0a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 148/172] fix: SVG drawing of tree with a single column had a
 width of zero

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index bd7dadc..2b86eb1 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1344,7 +1344,7 @@ class DrawTree(object):
 		height = max(row for row, _ in self.coords.values())
 		result = ['<svg version="1.1" xmlns="http://www.w3.org/2000/svg" '
 				'width="%dem" height="%dem" viewBox="%d %d %d %d">' % (
-						width * hmult,
+						max(width, 1) * hmult,
 						height * 2.5,
 						-hstart, -vstart,
 						width * hscale + hmult * hstart,
-- 
2.43.0


From b7812daa47999a652330021d4107e53a2f5ed054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 149/172] fix: DrawTree: could not draw trees with words or
 empty nodes without sentence

---
 discodop/tree.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 2b86eb1..b8dbf82 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1073,15 +1073,12 @@ class DrawTree(object):
 				# and multiple/mixed terminals under non-terminals.
 				self.tree = self.tree.copy(True)
 				self.sent = []
-				for a in self.tree.subtrees():
-					if a:
-						a.append(len(self.sent))
-						self.sent.append(None)
-					elif any(not isinstance(b, Tree) for b in a):
-						for n, b in enumerate(a):
-							if not isinstance(b, Tree):
-								a[n] = len(self.sent)
-								self.sent.append('%s' % b)
+				for a in list(self.tree.subtrees(lambda x: not x)):
+					a.append(None)
+				for n, a in enumerate(self.tree.treepositions('leaves')):
+					word = self.tree[a]
+					self.sent.append(None if word is None else '%s' % word)
+					self.tree[a] = n
 		if abbr:
 			if self.tree is tree:
 				self.tree = self.tree.copy(True)
-- 
2.43.0


From 99fb9c86287299d1839a48d078a8f3c3cc552405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 150/172] fix: Tiger XML: attributes with spaces were read as
 several fields

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 26c4928..18a972d 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -421,7 +421,8 @@ class TigerXMLCorpusReader(CorpusReader):
 						idref, nodes[idref]))
 		item = exporttree(
 				['#BOS ' + xmlblock.get('id')]
-				+ ['\t'.join(a) for a in nodes.values()]
+				+ ['\t'.join('_'.join(b.split()) or '--' for b in a)
+					for a in nodes.values()]
 				+ ['#EOS ' + xmlblock.get('id')],
 				self.functions, self.morphology, self.lemmas)
 		item.tree.label = root.split('_', 1)[1]
-- 
2.43.0


From 39fdfc24b7e6f7ae15bcb1f3394a1a4c592eae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 151/172] fix: do not produce empty trees for tables in header
 of export files

---
 discodop/treebank.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 18a972d..41bb419 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1211,9 +1211,13 @@ def segmentexport(morphology, functions, strict=False):
 		elif line.startswith('#EOS ') or line.startswith('#EOT '):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
-			cur.append(line)
-			item = exporttree(cur, functions, morphology)
-			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
+			if inblock == 1:
+				cur.append(line)
+				item = exporttree(cur, functions, morphology)
+				line = (yield ((item.tree, item.sent, item.comment), ),
+						CONSUMED)
+			else:  # end of a table, or without a start tag
+				line = (yield None, CONSUMED if inblock else not CONSUMED)
 			inblock = 0
 			cur = []
 		elif line:
-- 
2.43.0


From ce9bd6c8f1d0ee119a92131b3b7f653c9b1da95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 152/172] fix: print empty leaves consistently

---
 discodop/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index b8dbf82..e09dd13 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -538,8 +538,8 @@ class Tree(object):
 						indent + 2, brackets)
 			elif isinstance(child, tuple):
 				s += '\n' + ' ' * (indent + 2) + '/'.join(child)
-			elif isinstance(child, str):
-				s += '\n' + ' ' * (indent + 2) + '%s' % child
+			elif isinstance(child, str) or child is None:
+				s += '\n' + ' ' * (indent + 2) + (child or '')
 			else:
 				s += '\n' + ' ' * (indent + 2) + '%r' % child
 		return s + brackets[1]
-- 
2.43.0


From 83494c2828e3e2dcef0af504076dc85f7e2bdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 153/172] fix: skip malformed Alpino XML instead of repeating
 previous sentence

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 41bb419..28e210b 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -464,6 +464,7 @@ class AlpinoCorpusReader(CorpusReader):
 						filename,
 						rawblock.decode('utf8', errors='replace')),
 						file=sys.stderr)
+				continue
 			yield n, (rawblock, xmlblock)
 
 	def _parse(self, block):
@@ -496,6 +497,7 @@ class AlpinoCompactCorpusReader(AlpinoCorpusReader):
 						print('Problem with %r:\n%s' % (
 								n, block.decode('utf8', errors='replace')),
 								file=sys.stderr)
+						continue
 					yield n, (block, xmlblock)
 
 
-- 
2.43.0


From 84c7fa542964aade442cf848a205071c5e9b39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:27 +0000
Subject: [PATCH 154/172] fix: refuse export file that is cut short

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 28e210b..6764b04 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -343,6 +343,8 @@ class NegraCorpusReader(CorpusReader):
 					elif started:
 						lines.append(line)
 					# other lines are ignored: #FORMAT x, %% comments, ...
+		if started:
+			raise ValueError('no end of sentence marker for: %s' % sentid)
 
 	def _parse(self, block):
 		return exporttree(block, self.functions, self.morphology, self.lemmas)
-- 
2.43.0


From 074705bf2e4f447d6413c837f271259d02ab6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:32 +0000
Subject: [PATCH 155/172] fix: only remove fan-out markers, not other labels
 with underscores

---
 discodop/treetransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index fd78f1b..e4e0d93 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -24,6 +24,7 @@ from collections import defaultdict, Counter
 from .tree import Tree, ImmutableTree, isdisc, bitfanout, HEAD
 from .util import OrderedSet, PyAgenda
 
+FANOUTMARKERRE = re.compile(r'_[0-9]+$')
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
 MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(?:\^<(.*)>)?([^>]*)$')
@@ -633,7 +634,7 @@ def addfanoutmarkers(tree):
 def removefanoutmarkers(tree):
 	"""Remove fanout marks."""
 	for a in tree.subtrees(lambda x: '_' in x.label):
-		a.label = a.label.rsplit('_', 1)[0]
+		a.label = FANOUTMARKERRE.sub('', a.label)
 	return tree
 
 
-- 
2.43.0


From ed649bc420fa716fd55572ef192142435eecd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 156/172] fix: generate words for labels that also have phrasal
 rules

---
 discodop/gen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index e93e480..f4d68c4 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -33,10 +33,10 @@ def gen(grammar, start=1, discount=0.75, prodcounts=None, verbose=False):
 	"""
 	if prodcounts is None:
 		prodcounts = [1] * grammar.numrules
-	if not grammar.bylhs[start]:
-		terminal = chooserule(grammar.lexicalbylhs[start], discount, prodcounts)
-		return (terminal.prob, [[terminal.word]])
-	rule = chooserule(grammar.bylhs[start], discount, prodcounts)
+	rule = chooserule(grammar.bylhs[start]
+			+ grammar.lexicalbylhs.get(start, []), discount, prodcounts)
+	if isinstance(rule, LexicalRule):
+		return (rule.prob, [[rule.word]])
 	prodcounts[rule.no] += 1
 	p1, l1 = gen(grammar, rule.rhs1, discount, prodcounts, verbose)
 	assert l1
-- 
2.43.0


From 40d9dfa9fec3a6af142c7797c0a81b105a9af049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 157/172] fix: recognize non-ASCII quotation marks; do not
 treat capital A with circumflex as punctuation

---
 discodop/punctuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index a84e595..4393e47 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -13,7 +13,7 @@ PUNCTTAGS = {'.', ',', ':', "'", "''", '`', '``', '"',  # General
 # NB: ' is not in this list of tokens, because if it occurs as a possesive
 # marker it should be left alone; occurrences of ' as quotation marker may
 # still be identified using tags.
-PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xc2\xab\xc2\xbb\xb7\xad\\'
+PUNCTUATION = frozenset('.,():-";?/!*&`[]<>{}|=\xab\xbb\xb7\xad\\'
 		) | {'&bullet;', '..', '...', '....', '.....', '......',
 		'!!', '!!!', '??', '???', "''", '``', ',,',
 		'--', '---', '----', '-LRB-', '-RRB-', '-LCB-', '-RCB-',
@@ -26,7 +26,7 @@ PRUNEPUNCT = {'``', "''", '"', '.'}
 # Punctuation that come in pairs (left: right).
 BALANCEDPUNCTMATCH = {'"': '"', "'": "'", '``': "''",
 		'[': ']', '(': ')', '-LRB-': '-RRB-', '-LSB-': '-RSB-',
-		'-': '-', '\xc2\xab': '\xc2\xbb'}  # unicode << and >>
+		'-': '-', '\xab': '\xbb'}  # unicode << and >>
 
 
 def applypunct(method, tree, sent):
-- 
2.43.0


From f701383c0ec30c0345d50efee4ce2a9cb0ef5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:11 +0000
Subject: [PATCH 158/172] fix: recognize pretty-printed discbracket tree with
 word on its own line

---
 discodop/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index e09dd13..fb40dd0 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -25,7 +25,7 @@ FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
 INDEXRE = re.compile(r'(?<=[ \n])([0-9]+)(?=[ )\n])')
 # regex to check if the tree contains any terminals not prefixed by indices
-STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
+STRTERMRE = re.compile(r' (?!\s*[0-9]+=)[^()]*\s*\)')
 
 try:
 	from .bit import fanout as bitfanout
-- 
2.43.0


From 020340e8ea844e0586a1e5ad2df21188338b96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:16 +0000
Subject: [PATCH 159/172] fix: treedraw --numtrees should not count lines
 without trees

---
 discodop/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index e2688c2..dff75eb 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -129,14 +129,15 @@ Pipe the output through 'less -R' to preserve the colors."""
 		stream = chain.from_iterable(
 				openread(fname, encoding=encoding)
 				for fname in args)
-		trees = islice(incrementaltreereader(stream,
+		trees = incrementaltreereader(stream,
 				morphology=opts.get('--morphology'),
 				functions=opts.get('--functions'),
-				othertext=True),
-				0, limit)
+				othertext=True)
 		try:
 			n = 1
 			for tree, sent, rest in trees:
+				if limit is not None and n > limit:
+					break
 				if tree is None:
 					print(rest)
 					continue
-- 
2.43.0


From f7dc626314a0deee1bcc0063b82829c0bbb462c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 160/172] fix: show both targets and labels of secondary edges
 in tree drawings

---
 discodop/tree.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index fb40dd0..f6118f2 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1303,12 +1303,10 @@ class DrawTree(object):
 				edges[ids[i + (j, )]] = ids[i]
 
 		# handle secondary edges
-		labels = {}
+		labels = {a: node.label if isinstance(node, Tree) else node
+				for a, node in nodes.items()}
+		targets = {}
 		for a in nodes:
-			labels.setdefault(a,
-					(nodes[a].label
-							if isinstance(nodes[a], Tree)
-							else nodes[a]))
 			if (secedge and isinstance(nodes[a], Tree)
 					and nodes[a].source is not None):
 				coindexes = []
@@ -1318,8 +1316,7 @@ class DrawTree(object):
 					for b, node in nodes.items():
 						if (getattr(node, 'source', None) is not None
 								and node.source[0] == '#%s' % secedgeparent):
-							labels[b] = (node.label
-									+ '=%d' % (int(secedgeparent) - 500))
+							targets[b] = '=%d' % (int(secedgeparent) - 500)
 							break
 					else:
 						continue  # skip secondary edge to missing node
@@ -1328,6 +1325,8 @@ class DrawTree(object):
 				if coindexes:
 					labels[a] = '%s[%s]' % (nodes[a].label,
 							','.join(coindexes))
+		for a, target in targets.items():
+			labels[a] += target
 
 		return nodes, coords, edges, labels
 
-- 
2.43.0


From 0e6deac0d223aa8983c4d48fa3aa2188c2ffa25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:00 +0000
Subject: [PATCH 161/172] fix: grammar param: do not repeat start label given
 in parameter file

---
 discodop/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index dff75eb..50a338b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -495,8 +495,12 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.numproc, lexmodel, trees[0].label)
 		paramfile = os.path.join(resultdir, 'params.prm')
 		with openread(args[1]) as inp:
-			with io.open(paramfile, 'w', encoding='utf8') as out:
-				out.write("top='%s',\n%s" % (trees[0].label, inp.read()))
+			paramlines = inp.readlines()
+		if paramlines[0].startswith("top='"):
+			paramlines = paramlines[1:]
+		with io.open(paramfile, 'w', encoding='utf8') as out:
+			out.write("top='%s',\n" % trees[0].label)
+			out.writelines(paramlines)
 		return  # grammars have already been written
 	if opts.get('--dopestimator', 'rfe') != 'rfe':
 		xgrammar = [(rule, w) for (rule, _), w in
-- 
2.43.0


From db829ed4a4894600ef7d2667836ef8a7eb43cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 162/172] fix: grammar param: store list of closed class words

---
 discodop/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/cli.py b/discodop/cli.py
index 50a338b..6dc530e 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -451,6 +451,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.transformations, prm.relationalrealizational, resultdir)
 		if prm.postagging and prm.postagging.method == 'unknownword':
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
+			with open(resultdir + '/closedclasswords.txt', 'w') as out:
+				out.writelines(w + '\n' for w in lexmodel[3])
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-- 
2.43.0


From d56b265a6c52357d99acfa185493b088b3b43dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:40 +0000
Subject: [PATCH 163/172] fix: bracket readers: no trailing hyphen in function
 tag of indexed label

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 6764b04..9080da7 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -239,7 +239,7 @@ class BracketCorpusReader(CorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		sent = [unescape(token) or '' for token in LEAVESRE.findall(block)]
@@ -290,7 +290,7 @@ class DiscBracketCorpusReader(BracketCorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		return Item(tree, sent, comment, block)
-- 
2.43.0


From 14493dcb39f2c03717957bd15ec8df7f647b23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 164/172] fix: Tiger XML: use category of root node as its
 label

---
 discodop/treebank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 9080da7..598766d 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -384,6 +384,7 @@ class TigerXMLCorpusReader(CorpusReader):
 		rawblock, xmlblock = block
 		nodes = OrderedDict()
 		root = xmlblock.find('graph').get('root')
+		rootlabel = None  # when root is a terminal, use default label
 		for term in xmlblock.find('graph').find('terminals'):
 			fields = nodes.setdefault(term.get('id'), 6 * [None])
 			fields[WORD] = term.get('word')
@@ -395,7 +396,7 @@ class TigerXMLCorpusReader(CorpusReader):
 			nodes[term.get('id')] = fields
 		for nt in xmlblock.find('graph').find('nonterminals'):
 			if nt.get('id') == root:
-				ntid = '0'
+				ntid, rootlabel = '0', nt.get('cat')
 			else:
 				fields = nodes.setdefault(nt.get('id'), 6 * [None])
 				ntid = nt.get('id').split('_')[-1]
@@ -427,7 +428,8 @@ class TigerXMLCorpusReader(CorpusReader):
 					for a in nodes.values()]
 				+ ['#EOS ' + xmlblock.get('id')],
 				self.functions, self.morphology, self.lemmas)
-		item.tree.label = root.split('_', 1)[1]
+		if rootlabel:
+			item.tree.label = rootlabel.replace('(', '[').replace(')', ']')
 		item.block = rawblock
 		return item
 
-- 
2.43.0


From 9271659cd7ef8bac2e4b9e23a3ca667548ceebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 165/172] fix: FTB: skip constituents without words

---
 discodop/treebank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 598766d..5c2f669 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -695,6 +695,8 @@ def ftbtree(block, functions=None, morphology=None, lemmas=None):
 			result = ParentedTree(label, [])
 			for child in node:
 				subtree = getsubtree(child)
+				if subtree is None:
+					continue
 				subtree.source[PARENT] = nodeid
 				result.append(subtree)
 			if not result:
-- 
2.43.0


From d4c0ff128db1e3bd18bb2e174b050a2c37304f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:59 +0000
Subject: [PATCH 166/172] fix: Alpino: support words that span several tokens

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 5c2f669..f5a4a11 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -188,7 +188,8 @@ class CorpusReader(object):
 				item.tree = ParentedTree(self.ensureroot, [item.tree])
 		if not isinstance(self, BracketCorpusReader):
 			# roughly order constituents by order in sentence
-			for a in reversed(list(item.tree.subtrees(lambda x: len(x) > 1))):
+			for a in reversed(list(item.tree.subtrees(
+					lambda x: len(x) > 1 and isinstance(x[0], Tree)))):
 				a.children.sort(key=Tree.leaves)
 		if self.punct:
 			applypunct(self.punct, item.tree, item.sent)
-- 
2.43.0


From 091464249169915147b9092c68b68874173a17a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:23 +0000
Subject: [PATCH 167/172] fix: export format: read comment containing '%%'
 completely

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f5a4a11..fd642ca 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -574,7 +574,8 @@ def exporttree(block, functions=None, morphology=None, lemmas=None):
 			results.append(child)
 		return results
 
-	comment = block[0].split('%%')[1].strip() if '%%' in block[0] else None
+	comment = (block[0].split('%%', 1)[1].strip()
+			if '%%' in block[0] else None)
 	table = [exportsplit(x) for x in block[1:-1]]
 	sent = []
 	children = {'0': []}
-- 
2.43.0


From 0e40ff8f8510f64231c776c2e483e63ac0da1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:16 +0000
Subject: [PATCH 168/172] fix: export format: do not write empty columns for
 tags with a slash

---
 discodop/treebank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index fd642ca..9bcbbf7 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -818,8 +818,10 @@ def writeexporttree(tree, sent, key, comment, morphology):
 		secedges = list(collectsecedges(node))
 		if morphtag == '--' and morphology == 'replace':
 			morphtag = postag
-		elif morphtag == '--' and morphology == 'add' and '/' in postag:
-			postag, morphtag = postag.split('/', 1)
+		elif (morphtag == '--' and morphology == 'add'
+				and 0 < postag.find('/', 1) < len(postag) - 1):
+			x = postag.index('/', 1)
+			postag, morphtag = postag[:x], postag[x + 1:]
 		parentid = '%d' % (0 if node.parent is tree
 				else 500 + idindex.index(id(node.parent)))
 		result.append("\t".join((word, lemma, postag, morphtag, func,
-- 
2.43.0


From 16fccbac4403e16f533f06ad37ae89041aeaae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:08 +0000
Subject: [PATCH 169/172] fix: incremental reader: text before a tree on the
 same line

---
 discodop/treebank.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 9bcbbf7..dabeaea 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1071,6 +1071,8 @@ def incrementaltreereader(treeinput, morphology=None, functions=None,
 			if res is not None:
 				for tree, sent, rest in res:
 					x = -1 if rest is None else rest.find('\n')
+					if tree is None and not othertext:
+						continue  # text before a tree
 					if othertext and x != -1:
 						yield tree, sent, rest[:x]
 						yield None, None, rest[x:]
@@ -1134,7 +1136,10 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					elif rest.strip():
+						results.append((None, None, rest.strip()))
+					start = a
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From 4d53c3a6f5820f0ce114433b927f86252cebf90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 170/172] fix: comparison operators of trees form a total order

---
 discodop/tree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index f6118f2..5ed888c 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -125,26 +125,26 @@ class Tree(object):
 	def __lt__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label < other.label
-				or self.children < other.children)
+		return (self.label < other.label or self.label == other.label
+				and self.children < other.children)
 
 	def __le__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label <= other.label
-				or self.children <= other.children)
+		return (self.label < other.label or self.label == other.label
+				and self.children <= other.children)
 
 	def __gt__(self, other):
 		if not isinstance(other, Tree):
 			return True
-		return (self.label > other.label
-				or self.children > other.children)
+		return (self.label > other.label or self.label == other.label
+				and self.children > other.children)
 
 	def __ge__(self, other):
 		if not isinstance(other, Tree):
-			return False
-		return (self.label >= other.label
-				or self.children >= other.children)
+			return True
+		return (self.label > other.label or self.label == other.label
+				and self.children >= other.children)
 
 	# === Delegated list operations ==============================
 	def append(self, child):
-- 
2.43.0


From f8e28d53b365bec70307fdc26c7cb06d960c5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:52 +0000
Subject: [PATCH 171/172] fix: LaTeX label of binarized node with parent
 annotation lost characters

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5ed888c..1600d3f 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1883,9 +1883,10 @@ def latexlabel(label):
 		cat, siblings = newlabel.split('|', 1)
 		siblings = siblings.strip('<>')
 		if '^' in siblings:
-			siblings, parents = siblings.rsplit('^', 1)
+			siblings, parents = [a.strip('<>')
+					for a in siblings.rsplit('^', 1)]
 			newlabel = '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
-					cat, siblings[1:-1], parents)
+					cat, siblings, parents)
 		else:
 			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
 					cat, siblings)
-- 
2.43.0


From 728ddf2a6ee3cb68a05a9b8745f25e5c7cb27d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:23 +0000
Subject: [PATCH 172/172] fix: estimates: skipped rules when a label has more
 rules than there are labels

---
 discodop/estimates.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index 057f834..3da4e4e 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -116,7 +116,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				or x < insidescores[item.label, item.vec]):
 			insidescores[item.label, item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -124,7 +124,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -135,7 +135,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[rule.rhs2, vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -170,7 +170,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 		if x < insidescores[item.label].get(item.vec, INFINITY):
 			insidescores[item.label][item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -179,7 +179,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -192,7 +192,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 					agenda.setifbetter(SmallChartItem(rule.lhs, left),
 							rule.prob + x + insidescores[rule.rhs2][vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -420,7 +420,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				or x < insidescores[item.vec][item.label]):
 			insidescores[item.vec][item.label] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -428,7 +428,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -439,7 +439,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[vec][rule.rhs2])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
-- 
2.43.0

