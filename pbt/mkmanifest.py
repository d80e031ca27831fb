"""Write MANIFEST.json and properties.jsonl from pbt/properties.py."""
import json
import os
from properties import PROPERTIES, NOT_APPLICABLE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
	checks, lines = [], []
	for p in PROPERTIES + NOT_APPLICABLE:
		assert len(p['title']) <= 80, (p['id'], len(p['title']))
		lines.append(json.dumps(dict(
			id=p['id'], title=p['title'], statement=p['statement'],
			quantifier=dict(over=p['over'], text=p['quant']),
			why_tests_cant=p['why'],
			anchors=dict(files=p['files'],
				mechanism=[dict(name=a, where=b) for a, b in p['mech']],
				observe_at=p.get('observe', ['Python API']),
				hook_needed=None))))
	for p in PROPERTIES:
		cmd = '/opt/venv/bin/python pbt/run.py ' + p['id']
		checks.append(dict(property=p['id'], quick_cmd=cmd,
			thorough_cmd='VERIF_TIER=thorough ' + cmd,
			evidence_file='evidence/%s.json' % p['id'],
			technique='property-based testing (Hypothesis): ' + p['technique'],
			level='exploration',
			level_note=p['note']))
	manifest = dict(version=1,
		setup_cmd='/opt/venv/bin/python -c "import sys; assert '
			'sys.version_info[:2] == (3, 12)"',
		checks=checks,
		not_applicable=[dict(property=p['id'], reason=p['reason'])
			for p in NOT_APPLICABLE],
		notes='Run a single check with: pbt/run.py <ID>; replay a reported '
			'case with: pbt/run.py <ID> --replay FILE. See DESIGN.md.')
	with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
		out.write('\n'.join(lines) + '\n')
	with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as out:
		json.dump(manifest, out, indent=1)
		out.write('\n')


if __name__ == '__main__':
	main()
