"""Bootstraps spec/ast.json from the documentation in the header and from the argument
checks in the code at the time of writing.  The result was reviewed by hand and is what
the checks use; this script is not part of any check."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import header
from astmodel import *

NONZERO = dict(create_node_props_index=1, drop_node_props_index=1, delete=1, foreach=1, labels_operator=1, node_id_lookup=1,
               on_create=1, on_match=1, order_by=1, pattern=1, query=1, rel_id_lookup=1, remove=1, remove_labels=1, set=1,
               set_labels=1, start=1, using_join=1, comparison=1)
h = header.parse()
m = lib_module()
tt = TypeTable(m)
cts = [n for n in h if h[n]['params'] and h[n]['params'][-1][0] == 'range' and n.startswith('cypher_ast_')]
spec = {}
for n in cts:
    x = h[n]
    short = n[len('cypher_ast_'):]
    f = m.fn(n)
    V = Validation(m, f, tt)
    ps = {}
    names = [p for p, t in x['params']]
    for k, (p, t) in enumerate(x['params']):
        doc = x['pdoc'].get(p) or ''
        dt = sorted(set(re.findall(r'`(CYP\w+)`', doc)))
        if p in ('children', 'nchildren', 'range'):
            continue
        if t == 'const cypher_astnode_t *' or t == 'cypher_astnode_t *':
            ts = sorted(V.scalar_types(k))
            opt = V.null_accepted(k)
            ps[p] = dict(kind='node', types=ts, optional=opt)
            if ts != dt or opt != bool(re.search('or (null|`NULL`)', doc)):
                print('DOC', n, p, ts, opt, '|', doc)
        elif t.startswith('cypher_astnode_t *'):
            ts = set()
            for i in f.calls('cypher_astnode_instanceof'):
                e = f.expr(i['args'][0])
                if e[0] == 'ld' and any(z == ('arg', k) for z in walk(e)):
                    ts |= V.type_consts(f.expr(i['args'][1]))
            cn = names[k + 1] if re.match('unsigned', x['params'][k + 1][1]) else None
            if cn in ('nchildren', None):
                cn = 'nentries' if short == 'map' else 'length'
            ps[p] = dict(kind='nodes', count=cn, types=[sorted(ts)])
            if sorted(ts) != dt:
                print('DOC', n, p, ts, '|', doc)
        elif t.startswith('const cypher_operator_t * const'):
            ps[p] = dict(kind='operators', count='length')
        elif t == 'const cypher_operator_t *':
            ps[p] = dict(kind='operator')
        elif t == 'const char *':
            ps[p] = dict(kind='string', len='n')
        elif t == 'size_t':
            pass
        elif t == 'bool':
            ps[p] = dict(kind='flag')
        elif 'enum' in t:
            ps[p] = dict(kind='enum')
        elif t == 'unsigned int':
            ps[p] = dict(kind='count')
        else:
            print('??', n, p, t)
    e = dict(type={'pair_map': 'CYPHER_AST_MAP'}.get(short, 'CYPHER_AST_' + short.upper()), params=ps)
    if e['type'] not in tt.types:
        print('TYPE?', n, e['type'])
    if NONZERO.get(short):
        e['nonzero'] = [p for p in ps if ps[p]['kind'] == 'count']
    spec[n] = e
get = {}
for g in sorted(h):
    if g in spec or not g.startswith('cypher_ast_') or not h[g]['params']:
        continue
    best = max((c for c in spec if g.startswith(c + '_')), key=len, default=None)
    if not best or h[g]['params'][0][1] != 'const cypher_astnode_t *':
        print('NOGET', g)
        continue
    rest = g[len(best) + 1:]
    ps = spec[best]['params']
    idx = len(h[g]['params']) == 2
    cand = None
    r = re.sub(r'^(get_|is_|has_)', '', rest)
    if idx:
        for q in (r + 's', re.sub('y$', 'ies', r), r.rstrip('s') + 'es', 'prop_names' if 'prop' in r else ''):
            if q in ps:
                cand = q
    else:
        for q in (r, 'n' + r):
            if q in ps:
                cand = q
    if not cand and ps.get('s'):
        cand = 's'
    get[g] = dict(ctor=best, field=cand)
    if idx:
        get[g]['index'] = 1
    if not cand:
        print('GET?', g, rest, list(ps))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ast.gen.json'), 'w') as o:
    json.dump(dict(ctors=spec, getters=get), o, indent=0)
