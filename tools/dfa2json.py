#!/usr/bin/env python3
"""dfa2json.py ragel.xml out.json: turns the output of `ragel -Z -x` into the
frozen reference machine the SIP checks interpret. Run once; its output is
committed, so that a later change of the grammar or of the generated parser is
compared with the grammar as it was when the properties were written."""
import sys, json, re
import xml.etree.ElementTree as ET
r = ET.parse(sys.argv[1]).getroot()
m = r.find('.//machine')
acts = []
for a in m.find('action_list'):
    name = a.get('name') or ''
    txt = ''.join((c.text or '') if c.tag == 'text' else '<%s %s>' % (c.tag, c.text or '') for c in a)
    txt = re.sub(r'\s+', ' ', txt).strip()
    acts.append(name or txt)
tables = [list(map(int, t.text.split())) for t in m.find('action_table_list')]
ents = {e.get('name'): int(e.text) for e in m.find('entry_points')} if m.find('entry_points') is not None else {}
ents = {e.get('name'): int(e.text) for e in r.iter('entry')}
start = int(next(r.iter('start_state')).text)
states = []
for s in r.iter('state'):
    st = {'id': int(s.get('id')), 'final': s.get('final') == 't', 't': [], 'eof': None, 'cond': []}
    for t in s.find('trans_list'):
        lo, hi, to, ac = t.text.split()
        st['t'].append([int(lo), int(hi), -1 if to == 'x' else int(to), -1 if ac == 'x' else int(ac)])
    sa = s.find('state_actions')
    if sa is not None:
        st['eof'] = sa.text.split()
    cl = s.find('cond_list')
    if cl is not None:
        for c in cl:
            st['cond'].append(list(map(int, c.text.split())))
    states.append(st)
states.sort(key=lambda s: s['id'])
conds = [c.text.split() for c in r.iter('cond_space')]
json.dump({'actions': acts, 'tables': tables, 'entries': ents, 'start': start, 'conds': [list(map(int, c)) for c in conds], 'states': states}, open(sys.argv[2], 'w'), separators=(',', ':'))
print(len(states), 'states', len(acts), 'actions', len(tables), 'tables', conds, ents, start)
import collections
print(collections.Counter(tuple(s['eof'] or ()) for s in states).most_common(8))
print([ (s['id'],s['cond']) for s in states if s['cond']][:5], sum(1 for s in states if s['final']))
for i,a in enumerate(acts): print(i, a)
