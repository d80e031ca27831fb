#!/opt/venv/bin/python
"""Run the check of one property: run.py <property-id> [--replay FILE]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough),
VERIF_REPO (default /repo), VERIF_ONLY (regex selecting sub-properties),
VERIF_SCALE (multiplies the number of cases).

Exit status: 0 held, 1 violated (with VIOLATION line), 2 error of the check.
"""
import ast
import glob
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setuppath(src):
	sys.path[:] = [a for a in sys.path
			if os.path.abspath(a or '.') not in ('/repo', VERIF)]
	sys.path.insert(0, src)
	sys.path.insert(1, os.path.join(VERIF, 'pbt'))
	sys.path.append(SITE)
	sys.dont_write_bytecode = True


def checkfile(prop):
	return glob.glob(os.path.join(VERIF, 'pbt', 'checks',
			'%s_*.py' % prop.lower()))[0]


def loadcheck(prop):
	import core
	core.CHECK = prop
	name = os.path.basename(checkfile(prop))[:-len('.py')]
	mod = importlib.import_module('checks.' + name)
	return mod, core.PROPS


def header(prop):
	"""Read NEED = (...) from check source without importing it."""
	with open(checkfile(prop), encoding='utf8') as inp:
		src = inp.read()
	result = {}
	for node in ast.parse(src).body:
		if isinstance(node, ast.Assign) and isinstance(
				node.targets[0], ast.Name) and node.targets[0].id.isupper():
			try:
				result[node.targets[0].id] = ast.literal_eval(node.value)
			except ValueError:
				pass
	return result


def linecoverage(path):
	"""Record executed lines of Python modules in path (for tools/mutate.py).
	"""
	lines = set()
	mon = sys.monitoring

	def line(code, num):
		if code.co_filename.startswith(path):
			lines.add((os.path.basename(code.co_filename), num))
		return mon.DISABLE

	mon.use_tool_id(mon.COVERAGE_ID, 'pbt')
	mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
	mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
	return lines


def worker(prop, src, name, outdir):
	"""Run a single sub-property in this process."""
	os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(outdir, 'hyp')
	os.chdir(outdir)
	setuppath(src)
	import core
	core.limits()
	if name == '--list':
		_, props = loadcheck(prop)
		with open(os.path.join(outdir, 'list.json'), 'w') as out:
			json.dump([p.name for p in props], out)
		return 0
	_, props = loadcheck(prop)
	p = [a for a in props if a.name == name][0]
	seed = int(os.environ.get('VERIF_SEED') or 1)
	tier = os.environ.get('VERIF_TIER') or 'quick'
	n = p.quick if tier == 'quick' else p.thorough
	n = max(1, int(n * float(os.environ.get('VERIF_SCALE', 1))))
	curfile = open(os.path.join(outdir, name + '.current'), 'w+',
			encoding='utf8', errors='surrogatepass')

	def current(arg):
		curfile.seek(0)
		curfile.truncate()
		curfile.write(repr(arg))
		curfile.flush()

	findings = [a for a in core.loadknown(VERIF) if a['property'] == prop
			and a.get('sub') == name and a.get('status') == 'known']
	hits = {}

	def known(_p, arg, err):
		for a in findings:
			if re.search(a['case'], repr(arg)) and re.search(
					a['error'], err):
				hits[a['what']] = hits.get(a['what'], 0) + 1
				return True
		return False

	if os.environ.get('VERIF_COVER'):
		lines = linecoverage(os.path.join(src, 'discodop'))
	stats = core.Stats()
	start = time.time()
	found = core.search(p, core.seedfor(seed, prop + '/' + name), n, stats,
			current, known)
	result = dict(name=name, evaluations=stats.evaluations,
			nontrivial=len(stats.nontrivial), classes=stats.classes,
			samples=stats.samples, rule=' '.join(p.rule.split()),
			known=hits, seconds=round(time.time() - start, 2))
	if os.environ.get('VERIF_COVER'):
		with open(os.path.join(os.environ['VERIF_COVER'],
				'%s.%s' % (prop, name)), 'w') as out:
			out.writelines('%s:%d\n' % a for a in sorted(lines))
	if found is not None:
		result['violation'] = dict(arg=repr(found[0]), error=found[1])
	with open(os.path.join(outdir, name + '.json'), 'w',
			encoding='utf8', errors='surrogatepass') as out:
		json.dump(result, out)
	return 0


def replay(prop, fname):
	"""Execute a saved case directly, without generator library."""
	with open(fname, encoding='utf8') as inp:
		case = json.load(inp)
	import build
	tmp = tempfile.mkdtemp(prefix='pbt-')
	try:
		src = build.build(os.path.join(tmp, 'src'),
				header(prop).get('NEED', ('bit', )))
		setuppath(src)
		import core
		os.chdir(tmp)
		_, props = loadcheck(prop)
		p = [a for a in props if a.name == case['sub']][0]
		err = core.execute(p, ast.literal_eval(case['arg']))
	finally:
		shutil.rmtree(tmp, ignore_errors=True)
	if err:
		print(err)
		print('VIOLATION property=%s replay=%s' % (prop, fname))
		return 1
	print('case passes')
	return 0


def main():
	prop = sys.argv[1]
	if os.environ.get('PYTHONHASHSEED') != '0' or (
			not sys.flags.dont_write_bytecode):
		os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
		os.environ.pop('PYTHONPATH', None)
		os.execv(PY, [PY] + sys.argv)
	if len(sys.argv) > 3 and sys.argv[2] == '--worker':
		return worker(prop, *sys.argv[3:6])
	if len(sys.argv) > 3 and sys.argv[2] == '--replay':
		sys.path.insert(0, os.path.join(VERIF, 'pbt'))
		return replay(prop, os.path.abspath(sys.argv[3]))
	start = time.time()
	seed = int(os.environ.get('VERIF_SEED') or 1)
	tier = os.environ.get('VERIF_TIER') or 'quick'
	sys.path.insert(0, os.path.join(VERIF, 'pbt'))
	import build
	info = header(prop)
	tmp = tempfile.mkdtemp(prefix='pbt-')
	procs = {}

	def cleanup(*_args):
		for proc in procs.values():
			if proc.poll() is None:
				proc.kill()
		shutil.rmtree(tmp, ignore_errors=True)
	signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(2)))
	try:
		return run(prop, info, tmp, procs, seed, tier, start, build)
	finally:
		cleanup()


def run(prop, info, tmp, procs, seed, tier, start, build):
	try:
		src = build.build(os.path.join(tmp, 'src'), info.get('NEED', ('bit', )))
	except build.BuildError as err:
		print('ERROR: build failed\n%s' % err)
		return 2
	out = os.path.join(tmp, 'out')
	os.makedirs(out)
	me = os.path.abspath(__file__)

	def launch(name):
		log = open(os.path.join(out, name + '.log'), 'wb')
		return subprocess.Popen(
				[PY, me, prop, '--worker', src, name, out],
				stdout=log, stderr=log, stdin=subprocess.DEVNULL)

	if launch('--list').wait():
		with open(os.path.join(out, '--list.log')) as inp:
			print('ERROR: could not load check\n' + inp.read())
		return 2
	with open(os.path.join(out, 'list.json')) as inp:
		names = json.load(inp)
	if os.environ.get('VERIF_ONLY'):
		names = [a for a in names if re.search(os.environ['VERIF_ONLY'], a)]
	todo = names[:]
	errors, violations, results = [], [], []
	limit = 780 if tier == 'quick' else 6 * 3600
	while todo or procs:
		while todo and len(procs) < (os.cpu_count() or 4):
			name = todo.pop(0)
			procs[name] = launch(name)
		time.sleep(0.02)
		for name, proc in list(procs.items()):
			if proc.poll() is None:
				if time.time() - start > limit:
					proc.kill()
					proc.wait()
					errors.append('%s: wall clock limit reached' % name)
					del procs[name]
				continue
			del procs[name]
			with open(os.path.join(out, name + '.log'),
					errors='replace') as inp:
				log = inp.read()
			if proc.returncode == 0:
				with open(os.path.join(out, name + '.json'),
						encoding='utf8', errors='surrogatepass') as inp:
					result = json.load(inp)
				results.append(result)
				if 'violation' in result:
					violations.append((name, result['violation']))
					if os.environ.get('VERIF_FAST'):
						todo.clear()
						for other in procs.values():
							other.kill()
							other.wait()
						procs.clear()
						break
			elif proc.returncode < 0 and proc.returncode in (
					-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE,
					-signal.SIGBUS, -signal.SIGILL):
				# memory corruption, failed C++ allocation, &c.: violation
				with open(os.path.join(out, name + '.current'),
						encoding='utf8', errors='surrogatepass') as inp:
					violations.append((name, dict(arg=inp.read(),
							error='process died with signal %d\n%s' % (
								-proc.returncode, log[-2000:]))))
				results.append(dict(name=name, evaluations=0, nontrivial=0,
						classes={}, samples=[], rule='', known={}, seconds=0))
			else:
				errors.append('%s: exit status %d\n%s' % (
						name, proc.returncode, log[-6000:]))
	results.sort(key=lambda a: names.index(a['name']))
	for result in results:
		for what, cnt in result['known'].items():
			print('KNOWN-FINDING: property=%s %s (%d cases)' % (
					prop, what, cnt))
	import core
	for a in core.loadknown(VERIF):
		if (a['property'] == prop and a.get('status') == 'known'
				and not any(a['what'] in r['known'] for r in results)):
			print('KNOWN-FINDING: property=%s %s (not hit in this run)' % (
					prop, a['what']))
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	evidence = dict(property=prop, tier=tier, seed=seed, level='exploration',
			coverage=dict(
				evaluations=sum(a['evaluations'] for a in results),
				distinct_nontrivial=sum(a['nontrivial'] for a in results),
				rule='Hypothesis-generated cases per sub-property; a case is '
					'non-trivial by the rule of its sub-property: '
					+ '; '.join('%s: %s' % (a['name'], a['rule'])
						for a in results),
				samples=['%s: %s' % (a['name'], b)
						for a in results for b in a['samples'][:2]],
				subproperties={a['name']: dict(evaluations=a['evaluations'],
						distinct_nontrivial=a['nontrivial'],
						classes=a['classes'], seconds=a['seconds'])
						for a in results}),
			assumptions=info.get('ASSUMPTIONS', []),
			wall_s=round(time.time() - start, 2),
			violations=len(violations))
	with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as inp:
		json.dump(evidence, inp, indent=1)
	for result in results:
		print('%-32s %6d cases %6d non-trivial %7.2fs %s' % (result['name'],
				result['evaluations'], result['nontrivial'],
				result['seconds'], json.dumps(result['classes'])[:300]))
	os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
	for name, a in violations:
		fname = os.path.join(VERIF, 'replays', '%s.%s.json' % (prop, name))
		with open(fname, 'w', encoding='utf8') as out1:
			json.dump(dict(property=prop, sub=name, arg=a['arg'],
					error=a['error']), out1, indent=1)
		print('--- %s\ncase: %s\n%s' % (name, a['arg'][:3000],
				a['error'] if len(a['error']) < 4000 else
				a['error'][:2000] + '\n[...]\n' + a['error'][-1500:]))
		print('VIOLATION property=%s replay=%s' % (prop, fname))
	for a in errors:
		print('ERROR: ' + a)
	if violations:
		return 1
	return 2 if errors else 0


if __name__ == '__main__':
	sys.exit(main())
