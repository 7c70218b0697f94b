"""Print the table of planted bugs (id, what it needs) for DESIGN.md from seeded/*/meta.json."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| change | caught by | what it needs |\n|----|----|----|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print(f"| {i} | {m['property']} | {m['needs']} |")
