"""prints the table of planted bugs for DESIGN.md"""
import json, os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| bug | property | what it breaks | needs |\n|---|---|---|---|')
for s in sorted(os.listdir(R), key=lambda x: int(x[1:].split('_')[0])):
    m = json.load(open('%s/%s/meta.json' % (R, s)))
    print('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs']))
