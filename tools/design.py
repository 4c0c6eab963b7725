"""Writes the tables of fixes and planted bugs into DESIGN.md (between markers)."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(s, name, text):
    b, e = '<!-- %s -->\n' % name, '<!-- end %s -->' % name
    if b not in s: s = s.replace(name.upper() + '\n', b + e + '\n')
    return s[:s.index(b) + len(b)] + text + s[s.index(e):]
s = open(V + '/DESIGN.md').read()
fx = json.load(open(V + '/known_findings.json'))['fixed']
s = put(s, 'fixes', ''.join('* %s (%s): %s\n' % (m.group(2), m.group(1), m.group(3)) for m in (re.match(r'fixed: property=(\w+) (\w+) (.*)', f) for f in fx)) + '\n')
rows = sorted((json.load(open(d + '/meta.json'))['property'], os.path.basename(d), json.load(open(d + '/meta.json'))) for d in glob.glob(V + '/seeded/*'))
late = json.load(open(V + '/tools/missed.json'))
s = put(s, 'table', '| property | bug | shows with | missed at first; strengthened |\n| --- | --- | --- | --- |\n' + ''.join('| %s | %s | %s | %s |\n' % (p, b, m['needs'].replace('|', '\\|'), late.get(b, '')) for p, b, m in rows))
open(V + '/DESIGN.md', 'w').write(s)
