"""Make and validate planted bugs: seed.py DEFS.py [ID...]

DEFS.py defines SEEDS: a list of dicts(id, property, file, edits=[(old, new)],
needs, what, demo). Each is applied to /repo, built, tested, demonstrated, and
undone; kept in /verif/seeded/<id> when it qualifies."""
import json
import os
import runpy
import subprocess
import sys

REPO = '/repo'
DEST = '/verif/seeded'


def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, capture_output=True, text=True,
			cwd=REPO, **kw)


def tests():
	sh('bash /opt/vp/build.sh', check=True)
	sh('bash /opt/vp/test.sh /tmp/seedtest.json')
	with open('/tmp/seedtest.json') as inp:
		return set(json.load(inp)['passed'])


def main():
	seeds = runpy.run_path(sys.argv[1])['SEEDS']
	with open('/opt/vp/BASELINE.json') as inp:
		base = json.load(inp)
	base = set(base.get('passed') or base.get('stable') or base)
	assert not sh('git status --porcelain').stdout
	for s in seeds:
		if sys.argv[2:] and s['id'] not in sys.argv[2:]:
			continue
		path = os.path.join(DEST, s['id'])
		os.makedirs(path, exist_ok=True)
		with open(path + '/demo.py', 'w') as out:
			out.write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n'
					+ s['demo'].strip('\n') + '\n')
		with open(path + '/demo.sh', 'w') as out:
			out.write('#!/bin/bash\n# run in /repo after the build\n'
					'export PYTHONDONTWRITEBYTECODE=1\n'
					'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
		with open(path + '/meta.json', 'w') as out:
			json.dump(dict(property=s['property'], needs=s['needs'],
					what_it_breaks=s['what']), out, indent=1)
		problems = []
		a = sh('timeout 300 bash %s/demo.sh' % path)
		if a.returncode:
			problems.append('demo fails on unchanged tree: ' + a.stderr[-500:])
		try:
			edits = s['edits']
			for fname, old, new in [(s['file'], ) + e if len(e) == 2 else e
					for e in edits]:
				fname = os.path.join(REPO, fname)
				with open(fname) as inp:
					src = inp.read()
				if src.count(old) != 1:
					problems.append('%d matches: %r' % (src.count(old), old))
				with open(fname, 'w') as out:
					out.write(src.replace(old, new))
			with open(path + '/patch.diff', 'w') as out:
				out.write(sh('git diff').stdout)
			missing = base - tests()
			if missing:
				problems.append('tests fail: %s' % sorted(missing))
			a = sh('timeout 300 bash %s/demo.sh' % path)
			if not a.returncode:
				problems.append('demo passes with patch')
			out = (a.stderr.strip().splitlines() or [''])[-1]
			b = subprocess.run('/opt/venv/bin/python pbt/run.py '
					+ s['property'], shell=True, capture_output=True,
					text=True, cwd='/verif')
			caught = b.returncode == 1 and 'VIOLATION property=%s ' % s[
					'property'] in b.stdout
		finally:
			sh('git checkout -- .', check=True)
		print(s['id'], s['property'], 'BAD' if problems else 'ok',
				'CAUGHT' if caught else 'MISSED rc=%d' % b.returncode,
				[a for a in b.stdout.splitlines() if a.startswith('---')],
				'| demo:', out[:100], flush=True)
		for a in problems:
			print('   ', a)
	sh('bash /opt/vp/build.sh', check=True)


if __name__ == '__main__':
	main()
