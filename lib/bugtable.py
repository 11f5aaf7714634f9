"""Development tool: rewrites section 4 of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    'C04-steal-keeps-repeats': 'hotkey groups with repeated tags in the focus', 'C08-sum-wraps-16': 'indexes beyond 16 bits', 'C28-old-files-kept': 'converting twice into one directory',
    'C26-camera-forgotten': 'saves with richer states', 'C26-empty-list-unreadable': 'saves with richer states', 'C26-min-loop-forgotten': 'saves with richer states', 'C26-other-unit-name': 'saves with richer states',
    'C04-append-255': 'crowd histories (hundreds of units)', 'C08-hundred': 'crowd histories', 'C01-skip-run': 'long streams', 'C11-max-thousand': 'long streams', 'C12-blob-8k': 'long blobs',
    'C13-long-blob': 'long blobs at all offsets', 'C15-tags-short': 'long lists', 'C18-rows-cut': 'replays of more than 1024 rows', 'C18-no-truncate': 'exports over older files',
    'C24-dims-byte': 'terrain wider than 256', 'C07-far-recycle': 'the Tags modules'}
def main():
    out = ['## 4. Planted bugs', '',
           'Each patch in `seeded/` compiles, passes the stable tests and has a demonstration. All of them are caught by the check of their own property; the',
           'last column says what had to be added to the machinery for those that were missed at first.', '',
           '| bug | what it breaks | needs | missed at first; caught since |', '|---|---|---|---|']
    for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), FIRST_MISSED.get(i, '')))
    p = ROOT + '/DESIGN.md'
    s = open(p).read()
    open(p, 'w').write(s[:s.index('## 4. Planted bugs')] + '\n'.join(out) + '\n')
main()
