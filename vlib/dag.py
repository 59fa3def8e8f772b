"""Reads the dump of a symbolic execution."""
import json, os, re
import numpy as np
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_txt = open(os.path.join(ROOT, 'engine', 'symop.h')).read()
OPS = re.findall(r'X\((\w+)\)', _txt[_txt.index('SYM_OPS(X)'):_txt.index('enum SymOp')])
OPC = {n: i for i, n in enumerate(OPS)}
globals().update({'O_' + n: i for i, n in enumerate(OPS)})
_dt = np.dtype([('op', '<u4'), ('w', '<u4'), ('a', '<u4'), ('b', '<u4'), ('c', '<u4'), ('pad', '<u4'), ('val', '<u8')])


class Dag:
    def __init__(self, out):
        self.raw = np.fromfile(out + '.nodes', dtype=_dt)
        j = json.load(open(out + '.json'))
        self.j = j
        self.op = self.raw['op']; self.w = self.raw['w']; self.a = self.raw['a']; self.b = self.raw['b']; self.c = self.raw['c']
        self.vals = self.raw['val']; self.fval = self.vals.view('<f8')
        self.vars = {v[0]: v for v in j['vars']}
        self.varname = [v[0] for v in j['vars']]
        self.outs = {}
        for o in j['outs']:
            self.outs[o[0]] = (o[3], o[1], o[2])
        self.pcs = j['pcs']; self.sites = j['sites']; self.exts = j['exts']; self.meta = j['meta']
        self.pick = {}      # node -> the operand this path chose (0: its concrete value)

    def outval(self, n):
        e, w, bits = self.outs[n]
        return float(np.array([bits], dtype='<u8').view('<f8')[0]) if w & 256 else int(np.array([bits], dtype='<u8').view('<i8')[0])

    def reach(self, roots):
        """ids reachable from roots in topological (increasing id) order."""
        seen = np.zeros(len(self.op), dtype=bool)
        st = [int(r) for r in roots if r]
        op, a, b, c = self.op, self.a, self.b, self.c
        while st:
            i = st.pop()
            if seen[i]:
                continue
            seen[i] = True
            o = op[i]
            if o <= 1:
                continue
            if i in self.pick:
                if self.pick[i] and not seen[self.pick[i]]: st.append(int(self.pick[i]))
                continue
            for k in (a[i], b[i], c[i]):
                if k and not seen[k]:
                    st.append(int(k))
        return np.nonzero(seen)[0]
