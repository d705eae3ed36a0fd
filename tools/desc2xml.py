#!/usr/bin/env python3
# debugging helper: turns the text of a counterexample into SDF3 XML for the kiter command line
import re, sys
T, E = [], []
for l in sys.stdin:
    m = re.search(r'task (\S+) (?:init=\[([\d,]*)\] )?dur=\[([\d,;]*)\].*reentrancy=(\d+)', l)
    if m: T.append((m[1], m[3], m[4])); continue
    m = re.search(r'edge (\S+): (\S+) \[([\d,;]*)\] -> (\S+) \[([\d,;]*)\] tokens=(\d+)', l)
    if m: E.append(m.groups())
o = '<sdf3 type="csdf" version="1.0"><applicationGraph name="app"><csdf name="g" type="g">\n'
for n, d, r in T:
    o += f'<actor name="{n}" type="a">'
    for e, s, i, t, u, m in E:
        if s == n: o += f'<port name="in_{e}" type="out" rate="{i}"/>'
        if t == n: o += f'<port name="out_{e}" type="in" rate="{u}"/>'
    one = ';'.join(','.join('1' for _ in p.split(',')) for p in d.split(';'))
    if r != '0': o += f'<port name="lo" type="out" rate="{one}"/><port name="li" type="in" rate="{one}"/>'
    o += '</actor>\n'
for n, d, r in T:
    if r != '0': o += f'<channel name="R{n}" srcActor="{n}" srcPort="lo" dstActor="{n}" dstPort="li" initialTokens="1"/>\n'
for e, s, i, t, u, m in E: o += f'<channel name="{e}" srcActor="{s}" srcPort="in_{e}" dstActor="{t}" dstPort="out_{e}" initialTokens="{m}"/>\n'
o += '</csdf><csdfProperties>'
for n, d, r in T: o += f'<actorProperties actor="{n}"><processor type="p" default="true"><executionTime time="{d}"/></processor></actorProperties>\n'
print(o + '</csdfProperties></applicationGraph></sdf3>')
