"""Core of the property-based testing framework: properties, runner, evidence.

A check module in ``pbt/checks`` defines generated-input properties with the
``prop`` decorator.  Generators produce plain data (nested lists, tuples,
strings, integers), so that any case can be written to a replay file with
``repr`` and executed again without the generator library.

Run ``python pbt/run.py <property id>``; see that file.
"""
import hashlib
import json
import os
import re
import resource
import signal
import sys
import time
import traceback

CHECK = None  # name of check module being loaded
PROPS = []  # all properties in the loaded check module


class Violation(AssertionError):
	"""The code under test broke the property."""


class Prop:
	"""A single executable property with a generator."""
	def __init__(self, func, strategy, quick, thorough, rule):
		self.func = func
		self.name = func.__name__
		self.strategy = strategy
		self.quick, self.thorough = quick, thorough
		self.rule = rule


def prop(strategy, quick=300, thorough=None, rule=''):
	"""Declare a property: decorate a function of one (generated) argument.

	The function returns a (possibly empty) collection of class names for the
	case, e.g. ``('disc', 'unary')``; when it returns a true value the case
	counts as non-trivial, and each of the names is counted.  ``rule`` says
	what that means.  It raises an exception when the property is violated."""
	def decorator(func):
		PROPS.append(Prop(func, strategy, quick,
				thorough or quick * 20, rule or func.__doc__ or ''))
		return func
	return decorator


def check(cond, msg, *args):
	"""Oracle assertion."""
	if not cond:
		raise Violation(msg % args if args else msg)


def same(got, want, msg='', *args):
	"""Oracle equality."""
	if got != want:
		raise Violation('%s\n  got:      %r\n  expected: %r' % (
				msg % args if args else msg, got, want))


def raises(exc, func, *args, **kwargs):
	"""Oracle: func raises one of the given exceptions; returns exception."""
	try:
		result = func(*args, **kwargs)
	except exc as err:
		return err
	raise Violation('%s%r did not raise %r but returned %r' % (
			getattr(func, '__name__', func), args, exc, result))


class Timeout(BaseException):
	"""Not a subclass of Exception so that the code under test does not
	swallow it."""


class Stats:
	"""Measured counts for one property."""
	def __init__(self):
		self.evaluations = 0
		self.nontrivial = set()
		self.classes = {}
		self.samples = []
		self.every = 1


def execute(p, arg, stats=None, cpulimit=120):
	"""Run property on one case; returns None or an error description."""
	err = None

	def handler(_signum, _frame):
		raise Timeout

	old = signal.signal(signal.SIGVTALRM, handler)
	signal.setitimer(signal.ITIMER_VIRTUAL, cpulimit)
	try:
		result = p.func(arg)
	except Timeout:
		err = 'no result after %d s of CPU time' % cpulimit
	except (KeyboardInterrupt, SystemExit) as e:
		if isinstance(e, KeyboardInterrupt):
			raise
		err = 'SystemExit raised:\n' + traceback.format_exc()
	except Exception as e:
		mod = type(e).__module__
		if mod.startswith('hypothesis'):
			raise
		err = traceback.format_exc()
	finally:
		signal.setitimer(signal.ITIMER_VIRTUAL, 0)
		signal.signal(signal.SIGVTALRM, old)
	if stats is not None:
		stats.evaluations += 1
		if err is None and result:
			key = hashlib.md5(repr(arg).encode('utf8', 'surrogatepass')
					).digest()
			if key not in stats.nontrivial:
				stats.nontrivial.add(key)
				if len(stats.samples) < 3 or (len(stats.samples) < 6
						and len(stats.nontrivial) % 97 == 0):
					stats.samples.append(repr(arg)[:800])
			if not isinstance(result, (bool, int)):
				for a in set(result):
					stats.classes[a] = stats.classes.get(a, 0) + 1
	return err


class _Found(Exception):
	pass


def search(p, seed, n, stats, current=None, known=None):
	"""Search for a counterexample with Hypothesis; returns (arg, error)."""
	import hypothesis
	from hypothesis import given, settings, HealthCheck, Phase
	last = [None]

	def body(arg):
		if current is not None:
			current(arg)
		err = execute(p, arg, stats)
		if err is not None:
			if known is not None and known(p, arg, err):
				return
			size = len(repr(arg))
			# in the shrinking phase the last failing example is the simplest
			last[0] = (arg, err, size)
			raise _Found(_signature(err))

	test = settings(max_examples=n, database=None, deadline=None,
			derandomize=False, print_blob=False, report_multiple_bugs=False,
			phases=(Phase.explicit, Phase.generate) + (
				() if os.environ.get('VERIF_FAST') else (Phase.shrink, )),
			suppress_health_check=[HealthCheck.too_slow,
				HealthCheck.data_too_large, HealthCheck.large_base_example],
			)(hypothesis.seed(seed)(given(p.strategy)(body)))
	stdout, sys.stdout = sys.stdout, sys.stderr
	try:
		test()
	except _Found:
		return last[0][:2]
	except BaseException:
		if last[0] is not None:  # e.g., hypothesis.errors.Flaky
			return last[0][:2]
		raise
	finally:
		sys.stdout = stdout
	return None


def _signature(err):
	return err.strip().splitlines()[-1][:80]


def loadknown(verif):
	"""Read list of known findings: property, sub, and regex for the case."""
	fname = os.path.join(verif, 'known-findings.json')
	if not os.path.exists(fname):
		return []
	with open(fname, encoding='utf8') as inp:
		return json.load(inp)['findings']


def limits(gb=6):
	resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
	resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def seedfor(seed, name):
	return int(hashlib.sha256(('%d/%s' % (seed, name)).encode()
			).hexdigest()[:12], 16)
