"""shared parts of the properties"""
import json

REAL = ['flixOpt (all modules)', 'Pyomo model construction', 'numpy/pandas', 'json/yaml serialisation']
STUB = ['solver back end (simulated: answers chosen by the seed, optima by scipy HiGHS)', 'clock', 'web browser']


class Prop:
    runs = {'quick': 100, 'thorough': 2000}
    real, stub = REAL, STUB
    assumptions = []
    measure = 'distinct fingerprints'
    rule = ''

    def __init__(self, pid):
        self.id = pid

    def candidates(self, sc):
        """smaller scenarios: by default smaller specs"""
        from dst import shrink
        if 'spec' in sc:
            for sp in shrink.spec_candidates(sc['spec']):
                c = json.loads(json.dumps(sc))
                c['spec'] = sp
                yield c
