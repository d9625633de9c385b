"""Builds harness/corpus/queries.json from the SQL texts in the repository (run once; the result is committed)."""
import glob, json, re, sys, textwrap
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
out = []
seen = set()
def add(group, setup, query, ordered=False):
    q = textwrap.dedent(query).strip().rstrip(';').strip()
    key = (tuple(setup), q)
    if not q or key in seen: return
    seen.add(key)
    out.append({'group': group, 'setup': setup, 'query': q})
for f in sorted(glob.glob(repo + '/crates/sail-spark-connect/tests/gold_data/function/*.json')):
    g = f.split('/')[-1][:-5]
    for t in json.load(open(f))['tests']:
        add('function/' + g, [], t['input']['query'])
for f in sorted(glob.glob(repo + '/python/pysail/tests/**/*.feature', recursive=True)):
    g = 'feature/' + '/'.join(f.split('/tests/spark/')[-1].split('/')[-2:])[:-8]
    feature_bg, scen, cur, ok, in_bg = [], [], None, True, False
    lines = open(f).read().split('\n')
    i, pending = 0, None
    setup, bg, bad, bgbad = [], [], False, False
    mode = None
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith('Background'):
            mode, setup, bad = 'bg', bg, False
        elif s.startswith('Rule'):
            bg, bgbad = [], bgbad
        elif s.startswith(('Scenario', 'Example:')):
            if mode == 'bg': bgbad = bad
            mode, setup, bad = 'sc', list(bg), bgbad
            if s.startswith('Scenario Outline'): bad = True
        elif s.startswith(('Given ', 'When ', 'Then ', 'And ', 'But ')):
            step = s.split(' ', 1)[1]
            doc = None
            if i + 1 < len(lines) and lines[i+1].strip().startswith('"""'):
                j = i + 2
                while not lines[j].strip().startswith('"""'): j += 1
                doc = textwrap.dedent('\n'.join(lines[i+2:j])).strip().rstrip(';')
                i = j
            if step == 'statement':
                if re.match(r'(?is)\s*create\s+(or\s+replace\s+)?(global\s+)?temp(orary)?\s+view', doc or '') and 'global' not in doc.lower().split('view')[0]:
                    setup.append(re.sub(r'(?is)^\s*create\s+temp', 'CREATE OR REPLACE TEMP', doc))
                else: bad = True
            elif step == 'query':
                if not bad and doc and re.match(r'(?is)\s*(select|with|from|values|\()', doc):
                    add(g, list(setup), doc)
            elif step == 'final statement':
                pass
            elif step.startswith(('config', 'variable', 'file', 'statement', 'query template')):
                bad = True
        i += 1
    
json.dump(out, open('harness/corpus/queries.json', 'w'), indent=0)
import collections
c = collections.Counter(x['group'].split('/')[0] for x in out)
print(len(out), c, sum(len(x['setup'])>0 for x in out))
