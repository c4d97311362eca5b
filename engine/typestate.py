"""Path-sensitive event automata over one function."""
from ir import Paths, Undecided, pathlines, walk

def run(fn, st0, instr, edge=None, keep=None, limit=60000, facts0=None, cut=None):
    """Carries st along every path; instr(i, env, facts, st) is called for every
    instruction and returns the new state (None ends the path).  Returns the states at the
    ends: [(instr, env, facts, path, st)] for every ret."""
    ends = []
    def step(b, env, facts, path, st):
        for i in fn.blocks[b]:
            if i['op'] == 'phi':
                continue
            if i['op'] == 'ret':
                ends.append((i, dict(env), dict(facts), path, st))
                return st
            st = instr(i, env, facts, st)
            if st is None:
                return None
        return st
    Paths(fn, limit=limit, keep=keep).explore(step=step, edge=edge, st0=st0, facts0=facts0, cut=cut)
    return ends

def known_null(facts, e):
    return facts.get(('cmp', 'eq', e, ('null',))) is True

def known_nonnull(facts, e):
    return facts.get(('cmp', 'eq', e, ('null',))) is False
