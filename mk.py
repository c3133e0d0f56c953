#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from checks/*.py."""
import glob
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def main():
    props, checks, na = [], [], []
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', '[A-Z][0-9]*.py'))):
        m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
        p = dict(id=m.ID, **m.PROP)
        assert len(p['title']) <= 80, (m.ID, len(p['title']))
        props.append(p)
        if getattr(m, 'NOT_APPLICABLE', None):
            na.append(dict(property=m.ID, reason=m.NOT_APPLICABLE))
            continue
        checks.append(
            dict(
                property=m.ID,
                quick_cmd=f'{PY} run.py {m.ID} --tier quick',
                thorough_cmd=f'{PY} run.py {m.ID} --tier thorough',
                technique='symbolic execution of the real Python functions, z3/cvc5 deciding every assertion, counterexamples replayed',
                level='model_checking',
                level_note=f'Bounds: {m.BOUNDS}. Outside: {m.OUTSIDE}.',
            )
        )
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in props:
            fh.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd=f'{PY} setup_check.py', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    import jsonschema  # from the tooling venv

    sch = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(man, sch)
    sp = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, sp)
    print(len(props), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    from symx import core  # noqa: F401  (puts the tooling venv on sys.path)

    main()
