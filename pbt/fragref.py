"""Reference implementation of tree fragments, on plain data.

A node table of a (binary) tree with words; fragments are sets of nodes."""


def escape(word):
	"""Parentheses and whitespace in words, as documented for trees."""
	return word


class Table:
	"""A tree as a table of nodes in pre-order.

	:param spec: binarized tree, ``[label, [child, ...]]``.
	:param sent: list of words; None for a frontier non-terminal."""
	def __init__(self, spec, sent, escape=escape):
		self.label, self.kids, self.leaves, self.prod = [], [], [], []
		self.parent, self.word, self.pos = [], [], []
		self.sent = sent

		def visit(node, parent):
			n = len(self.label)
			self.label.append(node[0])
			self.parent.append(parent)
			for a in (self.kids, self.leaves, self.prod, self.word):
				a.append(None)
			self.kids[n] = []
			if isinstance(node[1][0], int):
				self.leaves[n] = sorted(node[1])
				word = sent[node[1][0]]
				self.word[n] = None if word is None else escape(word)
				self.prod[n] = (node[0], self.word[n])
				return n
			for a in node[1]:
				m = visit(a, (n, len(self.kids[n])))
				self.kids[n].append(m)
			self.leaves[n] = sorted(
					b for a in self.kids[n] for b in self.leaves[a])
			where = {b: k for k, a in enumerate(self.kids[n])
					for b in self.leaves[a]}
			yf, prev = [[]], None
			for a in self.leaves[n]:
				if prev is not None and a != prev + 1:
					yf.append([])
				if not yf[-1] or yf[-1][-1] != where[a]:
					yf[-1].append(where[a])
				prev = a
			self.prod[n] = (node[0], tuple(self.label[a]
					for a in self.kids[n]), tuple(map(tuple, yf)))
			return n
		visit(spec, None)

	def __len__(self):
		return len(self.label)

	def string(self, nodes, root, disc=True):
		"""String of the fragment consisting of nodes."""
		spans = []

		def runs(leaves):
			result = []
			for a in leaves:
				if result and result[-1][1] == a - 1:
					result[-1][1] = a
				else:
					result.append([a, a])
			return result

		def collect(n):
			if n not in nodes or not self.kids[n]:
				spans.extend(runs(self.leaves[n]))
			if n in nodes:
				for a in self.kids[n]:
					collect(a)
		collect(root)
		spans.sort()
		index, m, prev = {}, -1, None
		for a, b in spans:
			m += 1 if prev is None or a == prev + 1 else 2
			index[a] = m
			prev = b

		def render(n):
			if n in nodes and self.kids[n]:
				return '(%s %s)' % (self.label[n], ' '.join(
						render(a) for a in self.kids[n]))
			if not disc:
				return '(%s %s)' % (self.label[n], (self.word[n] or '')
						if n in nodes else '')
			if n in nodes and self.word[n] is not None:
				return '(%s %d=%s)' % (self.label[n],
						index[self.leaves[n][0]], self.word[n])
			return '(%s %s)' % (self.label[n], ' '.join('%d=' % index[a]
					for a, _ in runs(self.leaves[n])))
		return render(root)


def common(a, b):
	"""Maximal common fragments of two tables: set of (root, nodes in a)."""
	result = set()
	byprod = {}
	for j in range(len(b)):
		byprod.setdefault(b.prod[j], []).append(j)

	def expand(i, j, nodes):
		nodes.add(i)
		for x, y in zip(a.kids[i], b.kids[j]):
			if a.prod[x] == b.prod[y]:
				expand(x, y, nodes)
		return nodes

	for i in range(len(a)):
		for j in byprod.get(a.prod[i], ()):
			if a.parent[i] is not None and b.parent[j] is not None:
				(p, n), (q, m) = a.parent[i], b.parent[j]
				if n == m and a.prod[p] == b.prod[q]:
					continue
			result.add((i, frozenset(expand(i, j, set()))))
	return result


def occurs(a, root, nodes, b, j):
	"""Whether fragment of a occurs in b at node j."""
	return a.prod[root] == b.prod[j] and all(
			x not in nodes or occurs(a, x, nodes, b, y)
			for x, y in zip(a.kids[root], b.kids[j]))


def occurrences(a, root, nodes, tables):
	"""List of (tree no., node) where fragment of a occurs in tables."""
	return [(n, j) for n, b in enumerate(tables) for j in range(len(b))
			if occurs(a, root, nodes, b, j)]


def allfragments(a, maxdepth, maxfrontier):
	"""All (root, nodes) of fragments up to given depth, no. of frontiers."""
	result = []

	def visit(n):
		opts = [({n}, 1, 0)]
		for x in a.kids[n]:
			sub = visit(x)
			opts = [(p | q, max(d, 1 + e), f + g)
					for p, d, f in opts
					for q, e, g in sub + [(set(), 0, 1)]]
		opts = [x for x in opts if x[1] <= maxdepth]
		result.extend((n, frozenset(p)) for p, d, f in opts
				if f <= maxfrontier)
		return opts
	visit(0)
	return result
