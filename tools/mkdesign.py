#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md: one section per property, from the
property list, the claims, the rules and counts of the last evidence, and the
table of planted bugs (tools/caught.json: seed -> checks that report it)."""
import json
import os
import textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
MARK = '<!-- generated by tools/mkdesign.py -->'


def wrap(s, first='', rest=''):
    return textwrap.fill(s, 79, initial_indent=first, subsequent_indent=rest,
                         break_long_words=False, break_on_hyphens=False)


def main():
    path = os.path.join(V, 'DESIGN.md')
    out = [open(path).read().split(MARK)[0].rstrip(), '', MARK, '',
           '## Properties', '']
    fixed = {}
    for l in open(os.path.join(V, 'known-findings.txt')):
        if l.startswith('fixed: property='):
            p, c, what = l[len('fixed: property='):].strip().split(None, 2)
            fixed.setdefault(p, []).append('`%s` %s' % (c, what))
    seeds = {}
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        seeds.setdefault(m['property'], []).append((s, m))
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i not in CLAIMS:
            out += [wrap('Not applicable: ' + NA[i] + '.'), '']
            continue
        tech, bounds = CLAIMS[i]
        out += [wrap('Deciding method: %s.' % tech), '',
                wrap('Domain and bounds: %s.' % bounds), '']
        e = json.load(open(os.path.join(V, 'evidence', i + '.json')))
        c = e['coverage']
        out += ['Rules (the oracle of each is the model written in '
                '`sa/rules/%s.py`):' % i.lower(), '']
        for k, v in sorted(c['rules'].items()):
            out.append(wrap('*%s*: %s' % (k, v), '- ', '  '))
        out.append('')
        if e.get('assumptions'):
            out += [wrap('Assumes: ' + '; '.join(e['assumptions']) + '.'), '']
        n = c.get('undecided')
        out += [wrap('On the current tree: %d obligations, %d discharged, %d '
                     'undecided.' % (c['obligations'], c['discharged'],
                                     c['obligations'] - c['discharged'])), '']
        out += [wrap('Beyond the tests: it covers %s. %s' % (
            p['quantifier']['text'], p['why_tests_cant'])), '']
        if i in fixed:
            out += ['Defects found and repaired:', '']
            out += [wrap(x, '- ', '  ') for x in fixed[i]] + ['']
    out += ['## Planted bugs', '', wrap(
        'Every bug was planted from the text of its property; each was run '
        'against the check of its own property, and the last column says '
        'whether that check reports a violation.'), '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    for p in sorted(seeds):
        for s, m in seeds[p]:
            got = caught.get(s, [])
            got = [x for x in got if x == p] + [x for x in got if x != p]
            out.append('| %s | %s | %s | %s |' % (
                s, p, m['needs'].replace('|', '/'), ', '.join(got) or
                'nothing'))
    open(path, 'w').write('\n'.join(out) + '\n')


main()
