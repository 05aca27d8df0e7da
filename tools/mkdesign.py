"""Write DESIGN.md: head (kept), and design_tail.md with the table of planted bugs."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(f'{root}/tools/design_head.md').read()
tail = open(f'{root}/tools/design_tail.md').read()
rows = ['| Bug | Caught by | Needs | Breaks |', '|-|-|-|-|']
for f in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
n = len(re.findall('^fixed:', open(f'{root}/KNOWN_FINDINGS.txt').read(), re.M))
open(f'{root}/DESIGN.md', 'w').write(head + tail.replace('@BUGS@', '\n'.join(rows)).replace('@FIXED@', str(n)))
