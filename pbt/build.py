"""Build a private copy of /repo's working tree so it can be imported.

Everything happens in a scratch directory; nothing is written in /repo.
``bit`` is all that is built by the project's stock build in this sandbox; the
other extension modules include headers of git submodules which are absent
here, so for those the std-library stand-ins in /verif/shim are laid next to
the copy before compiling.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
ALL = ('bit', 'containers', '_fragments', 'pcfg', 'plcfrs', 'kbest',
		'coarsetofine', 'disambiguation', 'estimates')
FLAGS = ['-Isparsepp/', '-w', '-D__STDC_LIMIT_MACROS', '-O1', '-DNDEBUG']

BUILDER = r'''
import sys
sys.path.insert(0, '.')
import setup as ps
from setuptools import Extension, setup
from Cython.Build import cythonize
mod, tmp = sys.argv[1:3]
ext = cythonize([Extension('discodop.%%s' %% mod, ['discodop/%%s.pyx' %% mod],
		extra_compile_args=%r, language='c++')],
		compiler_directives=dict(ps.directives), language_level=3, quiet=True)
setup(name='x', packages=['discodop'], ext_modules=ext,
		script_args=['-q', 'build_ext', '--inplace', '--force', '-t', tmp])
''' % (FLAGS, )


class BuildError(Exception):
	pass


def _digest(mod):
	h = hashlib.sha256((BUILDER + mod).encode())
	names = ([REPO + '/discodop/%s.pyx' % mod, REPO + '/setup.py',
			VERIF + '/pbt/ext/%s.pyx' % mod]
			+ sorted(glob.glob(REPO + '/discodop/*.pxd'))
			+ sorted(glob.glob(REPO + '/discodop/*.pxi'))
			+ sorted(glob.glob(REPO + '/discodop/*.h'))
			+ sorted(glob.glob(VERIF + '/shim/*/*.h*'))
			+ sorted(glob.glob(VERIF + '/shim/*/*/*.h*')))
	for name in names:
		if os.path.exists(name):
			with open(name, 'rb') as inp:
				h.update(name.encode() + b'\0' + inp.read() + b'\0')
	return h.hexdigest()[:24]


def build(dest, mods=('bit', )):
	"""Copy the working tree of /repo to ``dest`` and compile ``mods``."""
	ignore = shutil.ignore_patterns('.git', 'build', '__pycache__', '*.so',
			'*.cpp', '*.pyc')
	shutil.copytree(REPO, dest, ignore=ignore, symlinks=True)
	for name in ('sparsepp', 'cpp-btree', 'gheap'):
		shutil.copytree(os.path.join(VERIF, 'shim', name),
				os.path.join(dest, name), dirs_exist_ok=True)
	for name in glob.glob(VERIF + '/pbt/ext/*.pyx'):
		shutil.copy(name, os.path.join(dest, 'discodop'))
	cache = os.path.join(VERIF, '.cache')
	env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
			PIP_NO_INDEX='1')
	procs = []
	for mod in mods:
		key = _digest(mod)
		hit = glob.glob('%s/%s-*/*.so' % (cache, key))
		if hit:
			for name in hit:
				shutil.copy(name, os.path.join(dest, 'discodop'))
			continue
		tmp = os.path.join(dest, 'build-' + mod)
		os.makedirs(tmp)
		procs.append((mod, key, subprocess.Popen(
				[PY, '-c', BUILDER, mod, tmp], cwd=dest, env=env,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
	failed = []
	for mod, key, proc in procs:
		out, _ = proc.communicate()
		so = glob.glob('%s/discodop/%s.*.so' % (dest, mod))
		if proc.returncode or not so:
			failed.append((mod, out.decode('utf8', 'replace')[-3000:]))
			continue
		try:
			final = '%s/%s-%s' % (cache, key, mod)
			part = '%s.%d' % (final, os.getpid())
			os.makedirs(part)
			shutil.copy(so[0], part)
			os.rename(part, final)
		except OSError:
			pass
		shutil.rmtree(os.path.join(dest, 'build-' + mod), ignore_errors=True)
		for name in glob.glob('%s/discodop/%s.cpp' % (dest, mod)):
			os.unlink(name)
	if failed:
		raise BuildError('\n'.join('%s:\n%s' % a for a in failed))
	return dest


if __name__ == '__main__':
	build(sys.argv[1], sys.argv[2:] or ('bit', ))
