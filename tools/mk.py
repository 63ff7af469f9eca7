"""helper for authoring planted bugs: mk(id, property, needs, breaks, edits, demo)"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''package ddl_test

import (
%s)

'''
def mk(id, prop, needs, breaks, edits, demo, imports='testing', extra=None, harness=True, raw=False):
    d = f'{root}/tools/seeds/{id}'
    os.makedirs(d, exist_ok=True)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks, 'edits': edits, 'harness': harness}, open(d + '/spec.json', 'w'), indent=1)
    imps = ''.join('\t%s\n' % (i if ' ' in i else '"%s"' % i) for i in imports.split('|'))
    open(d + '/bug_demo.go.txt', 'w').write(demo if raw else HEAD % imps + demo)
    for f, s in (extra or {}).items():
        open(d + '/' + f, 'w').write(s)
DDL = 'github.com/bokwoon95/sqddl/ddl'
