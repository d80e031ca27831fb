"""Mutation testing: find changes that neither the tests nor the checks notice.

usage: mutate.py OUT.jsonl --cover DIR [--n N] [--seed S] [--jobs J] MODULE...

Each mutant is a small change to one expression or statement. Mutants that the
stable tests detect are dropped; for the others, the sub-properties which execute
the line (according to the line coverage in DIR) are run without shrinking."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
from argparse import ArgumentParser

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
		ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
		ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
		ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
		ast.FloorDiv: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.LShift: '>>',
		ast.RShift: '<<', ast.Mod: None, ast.BitXor: '|'}


def mutants(src, fname):
	"""Yield (lineno, start, end, replacement, description)."""
	tree = ast.parse(src)
	lines = src.encode('utf8').splitlines(keepends=True)
	offsets = [0]
	for line in lines:
		offsets.append(offsets[-1] + len(line))
	data = src.encode('utf8')

	def pos(node):
		return (offsets[node.lineno - 1] + node.col_offset,
				offsets[node.end_lineno - 1] + node.end_col_offset)

	def text(node):
		a, b = pos(node)
		return data[a:b].decode('utf8')

	skip = set()
	for node in ast.walk(tree):
		if isinstance(node, (ast.Raise, ast.Assert)):
			for a in ast.walk(node):
				skip.add(id(a))
		if isinstance(node, ast.If) and 'main' in ast.unparse(node.test):
			for a in ast.walk(node):
				skip.add(id(a))
		if isinstance(node, ast.FunctionDef) and node.name in (
				'__repr__', 'test'):
			for a in ast.walk(node):
				skip.add(id(a))

	infunc = set()
	for node in ast.walk(tree):
		if isinstance(node, ast.FunctionDef):
			for a in ast.walk(node):
				infunc.add(id(a))
	for node in ast.walk(tree):
		if id(node) in skip or id(node) not in infunc:
			continue
		res = []
		if isinstance(node, ast.Compare) and len(node.ops) == 1:
			for op in CMP[type(node.ops[0])]:
				res.append('(%s %s %s)' % (text(node.left), op,
						text(node.comparators[0])))
		elif isinstance(node, ast.BinOp) and BIN.get(type(node.op)):
			if not isinstance(node.left, ast.Constant) or not isinstance(
					node.left.value, str):
				res.append('(%s %s %s)' % (text(node.left),
						BIN[type(node.op)], text(node.right)))
		elif isinstance(node, ast.BoolOp):
			op = ' or ' if isinstance(node.op, ast.And) else ' and '
			res.append('(%s)' % op.join('(%s)' % text(a)
					for a in node.values))
			for n in range(len(node.values)):
				op = ' and ' if isinstance(node.op, ast.And) else ' or '
				res.append('(%s)' % op.join('(%s)' % text(a) for m, a
						in enumerate(node.values) if m != n))
		elif isinstance(node, ast.IfExp):
			res += ['(%s)' % text(node.body), '(%s)' % text(node.orelse)]
		elif isinstance(node, ast.UnaryOp) and isinstance(node.op,
				(ast.Not, ast.USub)):
			res.append('(%s)' % text(node.operand))
		elif isinstance(node, ast.Constant):
			if node.value is True or node.value is False:
				res.append(str(not node.value))
			elif isinstance(node.value, int):
				res += [str(node.value + 1), str(node.value - 1)]
			elif isinstance(node.value, str) and 0 < len(node.value) < 4:
				res.append(repr(node.value + 'X'))
		elif isinstance(node, ast.Call):
			if node.keywords:
				for n in range(len(node.keywords)):
					args = [text(a) for a in node.args] + [
							('%s=%s' % (a.arg, text(a.value)) if a.arg
							else '**' + text(a.value))
							for m, a in enumerate(node.keywords) if m != n]
					res.append('%s(%s)' % (text(node.func), ', '.join(args)))
			if isinstance(node.func, ast.Name) and node.func.id in (
					'sorted', 'reversed', 'set', 'list', 'min', 'max') and len(
					node.args) == 1:
				if node.func.id == 'min':
					res.append('max(%s)' % text(node)[4:-1])
				elif node.func.id == 'max':
					res.append('min(%s)' % text(node)[4:-1])
				else:
					res.append('list(%s)' % text(node.args[0]))
			if isinstance(node.func, ast.Attribute) and node.func.attr in (
					'copy', 'lower', 'upper', 'strip', 'rstrip', 'lstrip'):
				res.append(text(node.func.value))
		elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
				ast.Delete)) and not (isinstance(node, ast.Expr)
				and isinstance(node.value, ast.Constant)):
			res.append('pass')
			if isinstance(node, ast.AugAssign):
				res.append('%s = %s' % (text(node.target), text(node.value)))
		elif isinstance(node, ast.Break):
			res += ['continue', 'pass']
		elif isinstance(node, ast.Continue):
			res += ['break', 'pass']
		elif isinstance(node, ast.Return) and node.value is not None:
			res.append('return None')
		elif isinstance(node, (ast.If, ast.While)):
			a, b = pos(node.test)
			yield (node.lineno, a, b, 'not (%s)' % text(node.test),
					'negate condition')
			if isinstance(node, ast.If):
				yield (node.lineno, a, b, 'False and (%s)' % text(node.test),
						'condition never')
		elif isinstance(node, ast.Slice):
			if node.lower:
				a, b = pos(node.lower)
				yield node.lineno, a, b, '', 'drop lower'
			if node.upper:
				a, b = pos(node.upper)
				yield node.lineno, a, b, '', 'drop upper'
		for r in res:
			a, b = pos(node)
			yield node.lineno, a, b, r, type(node).__name__


def enclosing(src):
	"""Map line numbers to functions."""
	result = {}

	def visit(node, prefix):
		for a in ast.iter_child_nodes(node):
			if isinstance(a, (ast.FunctionDef, ast.ClassDef)):
				name = prefix + a.name
				for n in range(a.lineno, a.end_lineno + 1):
					result[n] = name
				visit(a, name + '.')
			else:
				visit(a, prefix)
	visit(ast.parse(src), '')
	return result


def baseline(copy, mod):
	env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
			PYTHONPATH=copy + ':/opt/vp/tests')
	opts = ['-q', '-c', '/dev/null', '--rootdir=' + copy, '-p',
			'no:cacheprovider', '--timeout=60',
			'--continue-on-collection-errors', '-rA', '-o',
			'junit_family=xunit2']
	passed = set()
	for args in ((['--doctest-modules', 'discodop/' + mod]
			if mod not in SKIP else None),
			['-p', 'partial_import', 'tests/unittests.py']):
		if args is None:
			continue
		try:
			out = subprocess.run([PY, '-m', 'pytest'] + opts
					+ ['--basetemp=%s.tmp' % copy] + args, cwd=copy, env=env,
					capture_output=True, text=True, timeout=200).stdout
		except subprocess.TimeoutExpired:
			continue
		passed.update(re.findall(r'^PASSED (\S+)', out, re.M))
	return passed


SKIP = {a + '.py' for a in ('demos eval fragments functiontags lexicon parser '
		'runexp treebanktransforms treesearch').split()}


def main():
	p = ArgumentParser()
	p.add_argument('out')
	p.add_argument('--cover')
	p.add_argument('--n', type=int, default=100)
	p.add_argument('--seed', type=int, default=1)
	p.add_argument('--jobs', type=int, default=3)
	p.add_argument('--func', default='')
	p.add_argument('--repo', default='/repo')
	p.add_argument('modules', nargs='+')
	args = p.parse_args()
	cover = {}
	for name in os.listdir(args.cover):
		with open(os.path.join(args.cover, name)) as inp:
			for line in inp:
				f, n = line.split(':')
				cover.setdefault((f, int(n)), []).append(name)
	todo = []
	srcs = {}
	for mod in args.modules:
		with open(args.repo + '/discodop/' + mod, encoding='utf8') as inp:
			src = srcs[mod] = inp.read()
		funcs = enclosing(src)
		for a in set(mutants(src, mod)):
			if re.search(args.func, funcs.get(a[0], '')):
				todo.append((mod, ) + a + (funcs.get(a[0], ''), ))
	todo.sort()
	random.Random(args.seed).shuffle(todo)
	print(len(todo), 'mutants')
	todo = todo[:args.n]
	pool = Queue()
	base = {}
	scratch = tempfile.mkdtemp(prefix='mut-')
	for n in range(args.jobs):
		path = '%s/%d' % (scratch, n)
		shutil.copytree(args.repo, path, symlinks=True,
				ignore=shutil.ignore_patterns('.git'))
		pool.put(path)
	for mod in args.modules:
		base[mod] = baseline(path, mod)
	out = open(args.out, 'a')

	def run(item):
		mod, line, a, b, repl, what, func = item
		copy = pool.get()
		fname = copy + '/discodop/' + mod
		res = dict(mod=mod, line=line, func=func, what=what, repl=repl,
				old=srcs[mod].encode('utf8')[a:b].decode('utf8'))
		try:
			data = srcs[mod].encode('utf8')
			new = data[:a] + repl.encode('utf8') + data[b:]
			try:
				compile(new, fname, 'exec')
			except (SyntaxError, ValueError):
				res['status'] = 'invalid'
				return res
			with open(fname, 'wb') as o:
				o.write(new)
			if not base[mod] <= baseline(copy, mod):
				res['status'] = 'tests'
				return res
			subs = {}
			for name in cover.get((mod, line), ()):
				prop, sub = name.split('.')
				subs.setdefault(prop, []).append(sub)
			if not subs:
				res['status'] = 'uncovered'
				return res
			order = sorted(subs, key=lambda x: len(subs[x]))
			res['status'] = 'survived'
			res['checks'] = order
			for prop in order:
				env = dict(os.environ, VERIF_REPO=copy, VERIF_FAST='1',
						VERIF_ONLY='^(%s)$' % '|'.join(subs[prop]))
				try:
					rc = subprocess.run([PY, 'pbt/run.py', prop], cwd=VERIF,
							env=env, capture_output=True, text=True,
							timeout=600)
				except subprocess.TimeoutExpired:
					res['status'] = 'timeout'
					break
				if rc.returncode:
					res['status'] = ('caught' if rc.returncode == 1
							else 'error')
					res['by'] = prop
					break
		finally:
			with open(fname, 'wb') as o:
				o.write(srcs[mod].encode('utf8'))
			pool.put(copy)
			out.write(json.dumps(res) + '\n')
			out.flush()
		return res

	try:
		with ThreadPoolExecutor(args.jobs) as ex:
			list(ex.map(run, todo))
	finally:
		shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
	main()
