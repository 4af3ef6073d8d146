"""Development aid: regenerate the "fixed" part of known_findings.json from the fix commits of /repo and tools/fixmap.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'findings': []}
rules = json.load(open(os.path.join(HERE, 'tools', 'fixmap.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '96fdb0f..'], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, msg = line.split(' ', 1)
    prop = rules.get('exact', {}).get(h)
    files = subprocess.run(['git', '-C', '/repo', 'show', '--name-only', '--format=', h], capture_output=True, text=True).stdout
    if prop is None:
        for key, pr in rules['keywords']:
            if key.lower() in msg.lower() or key in files:
                prop = pr
                break
    if prop is None:
        print('NO PROPERTY', line)
        prop = '?'
    fixed.append(f'fixed: property={prop} {h} {msg.removeprefix("fix: ")}')
d['fixed'] = fixed
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
