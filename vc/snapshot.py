"""Names of the base tree (locals, fields, parameters), so that contracts survive renames."""
import json, os


class Snapshot:
    def __init__(self, path):
        self.d = json.load(open(path)) if path and os.path.exists(path) else {'funcs': {}, 'recs': {}}

    @staticmethod
    def take(prog, path):
        def locs(f):
            out = []

            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'Decl':
                        for d in x['d']:
                            out.append([d['name'], prog.types[d['t']]['s']])
                    if x.get('k') == 'Range':
                        out.append([x['v']['name'], prog.types[x['v']['t']]['s']])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            walk(f.get('body'))
            return out
        d = {'funcs': {k: {'p': [p['name'] for p in f['params']], 'l': locs(f), 'n': f.get('_nloops', 0),
                           'pt': [prog.types[p['t']]['s'] for p in f['params']], 'c': f.get('cls')} for k, f in prog.funcs.items()},
             'recs': {k: [[f['name'], prog.types[f['t']]['s']] for f in r['fields']] for k, r in prog.recs.items() if not k.startswith('lambda')}}
        json.dump(d, open(path, 'w'), indent=0, sort_keys=True)

    def param_names(self, key):
        return self.d['funcs'].get(key, {}).get('p')

    def current_key(self, prog, key):
        """key, or the renamed private helper that took its place."""
        if key in prog.funcs or key not in self.d['funcs']:
            return key
        b = self.d['funcs'][key]
        cand = [k for k, f in prog.funcs.items() if k not in self.d['funcs'] and f.get('cls') == b['c']
                and [prog.types[p['t']]['s'] for p in f['params']] == b['pt']]
        return cand[0] if len(cand) == 1 else key

    def field_alias(self, prog, cls, name):
        for c in prog.mro(cls) if cls in prog.recs else []:
            base = self.d['recs'].get(c)
            if not base:
                continue
            bn = [n for n, _ in base]
            if name not in bn:
                continue
            ty = dict(base)[name]
            now = [(f['name'], prog.types[f['t']]['s']) for f in prog.recs[c]['fields']]
            missing = [n for n, t in base if t == ty and n not in [x for x, _ in now]]
            new = [n for n, t in now if t == ty and n not in bn]
            if name in missing and len(missing) <= len(new):
                return [f'{c}::{new[missing.index(name)]}']
        return []

    def local_alias(self, func, name, names):
        base = self.d['funcs'].get(func['key'])
        if not base:
            return None
        if name in base['p']:
            i = base['p'].index(name)
            if i < len(func['params']):
                return func['params'][i]['name']
        types = dict(base['l'])
        if name not in types:
            return None
        bn = [n for n, _ in base['l']]
        missing, seen = [], set()
        for n, t in base['l']:
            if t == types[name] and n not in names and n not in seen:
                seen.add(n)
                missing.append(n)
        prog = self.prog
        cur = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'Decl':
                    for d in x['d']:
                        cur.append((d['name'], prog.types[d['t']]['s']))
                if x.get('k') == 'Range':
                    cur.append((x['v']['name'], prog.types[x['v']['t']]['s']))
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(func.get('body'))
        new = []
        for n, t in cur:
            if t == types[name] and n not in bn and n not in new and n in names:
                new.append(n)
        if name in missing:
            i = missing.index(name)
            if i < len(new):
                return new[i]
        return None
