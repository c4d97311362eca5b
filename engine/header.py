"""The public header: documented prototypes of cypher-parser.h.in."""
import os, re
import front

def parse(path=None):
    s = open(path or os.path.join(front.REPO, 'lib/src/cypher-parser.h.in')).read()
    out = {}
    # prototypes, with the documentation comment that precedes them
    for m in re.finditer(r'(?:/\*\*((?:(?!\*/).)*)\*/\s*)?((?:__cypherlang_\w+(?:\([^)]*\))?\s+)*)((?:static inline |extern )?[\w ]+?[\s*]+)\b(cypher_\w+|libcypher_\w+)\s*\(([^;{}]*?)\)\s*(?:;|\{)', s, re.S):
        doc, attrs, ret, name, params = m.groups()
        if 'typedef' in ret or ret.strip().startswith('return'):
            continue
        ps = []
        params = ' '.join(params.split())
        if params and params != 'void':
            for p in split_params(params):
                pm = re.match(r'(.*?)(\w+)(\[\])?$', p.strip())
                if pm:
                    ps.append((pm.group(2), ' '.join(pm.group(1).split()) + (pm.group(3) or '')))
        d = clean(doc or '')
        out[name] = dict(doc=d, attrs=attrs.split(), ret=' '.join(ret.split()), params=ps, line=s.count('\n', 0, m.start(4)) + 1,
                         pdoc=param_docs(d), rdoc=ret_doc(d))
    return out

_h = None
def cached():
    global _h
    if _h is None:
        _h = parse()
    return _h

def split_params(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '(':
            d += 1
        if c == ')':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out

def clean(d):
    return '\n'.join(re.sub(r'^\s*\*? ?', '', l) for l in d.split('\n')).strip()

def param_docs(d):
    out = {}
    for m in re.finditer(r'@param \[?(\w+)\]?\s+(.*?)(?=\n@|\Z)', d, re.S):
        out[m.group(1)] = ' '.join(m.group(2).split())
    return out

def ret_doc(d):
    m = re.search(r'@return\s+(.*?)(?=\n@|\Z)', d, re.S)
    return ' '.join(m.group(1).split()) if m else ''

if __name__ == '__main__':
    h = parse()
    print(len(h))
    for n, x in h.items():
        if any(p[0] == 'children' for p in x['params']):
            print(n)
            for p, t in x['params']:
                if p in ('children', 'nchildren', 'range'):
                    continue
                print('     ', p, '|', t, '|', x['pdoc'].get(p))
