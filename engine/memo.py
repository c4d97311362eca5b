import json, os
import front
_c = {}
def spec(name='ast'):
    if name not in _c:
        _c[name] = json.load(open(os.path.join(front.VERIF, 'spec', name + '.json')))
    return _c[name]
