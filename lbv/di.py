"""Struct member offsets and enum constants by name, from the debug info of the extracted code."""
import re

class DI:
    def __init__(self):
        self.structs = {}      # name -> (size, {member: (off_bytes, typeref)})
        self.enums = {}
        self.mods = []
    def load(self, text, modname):
        nodes = {}
        for l in text.split('\n'):
            if not l.startswith('!'): continue
            m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
            if m: nodes[m.group(1)] = m.group(2)
        def attr(s, k):
            m = re.search(r'\b%s: (!?"?[^,)]*"?)' % k, s)
            return m.group(1).strip('"') if m else None
        def elems(ref):
            if not ref: return []
            return re.findall(r'!(\d+)', nodes.get(ref[1:], ''))
        def comp(s):
            mem = {}
            for e in elems(attr(s, 'elements')):
                d = nodes.get(e, '')
                if 'DW_TAG_member' in d:
                    mem[attr(d, 'name')] = (int(attr(d, 'offset') or 0) // 8, attr(d, 'baseType'))
            return (int(attr(s, 'size') or 0) // 8, mem)
        self.cur = nodes
        mod = dict(nodes=nodes, structs={})
        for k, s in nodes.items():
            if s.startswith('!DICompositeType'):
                if 'DW_TAG_structure_type' in s or 'DW_TAG_union_type' in s:
                    nm = attr(s, 'name')
                    if nm and 'elements:' in s:
                        self.structs.setdefault(nm, (mod, comp(s)))
                elif 'DW_TAG_enumeration_type' in s:
                    for e in elems(attr(s, 'elements')):
                        d = nodes[e]
                        self.enums[attr(d, 'name')] = int(attr(d, 'value'))
            elif s.startswith('!DIDerivedType') and 'DW_TAG_typedef' in s:
                b = attr(s, 'baseType')
                if b and b[1:] in nodes and nodes[b[1:]].startswith('!DICompositeType') and 'elements:' in nodes[b[1:]]:
                    self.structs.setdefault(attr(s, 'name'), (mod, comp(nodes[b[1:]])))
        self.attr, self.comp = attr, comp
    def strip(self, mod, ref):
        while ref:
            s = mod['nodes'][ref[1:]]
            if 'DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s:
                ref = self.attr(s, 'baseType'); continue
            return s
        return None
    def tinfo(self, mod, s):
        """('ptr',8)|('int',size)|('f64',8)|('struct',size,members)|('arr',elem ref,count)"""
        if s is None: return ('void', 0)
        if 'DW_TAG_pointer_type' in s: return ('ptr', 8)
        if s.startswith('!DIBasicType'):
            sz = int(self.attr(s, 'size')) // 8
            return ('f64', 8) if 'DW_ATE_float' in s else ('int', sz)
        if 'DW_TAG_enumeration_type' in s: return ('int', 4)
        if 'DW_TAG_array_type' in s:
            el = re.findall(r'!(\d+)', mod['nodes'][self.attr(s, 'elements')[1:]])
            c = self.attr(mod['nodes'][el[0]], 'count')
            return ('arr', self.attr(s, 'baseType'), int(c) if c is not None else 0)
        if 'DICompositeType' in s:
            sz, mem = self.comp_mod(mod, s)
            return ('struct', sz, mem)
        raise KeyError(s)
    def comp_mod(self, mod, s):
        nodes = mod['nodes']
        mem = {}
        ref = self.attr(s, 'elements')
        for e in re.findall(r'!(\d+)', nodes.get(ref[1:], '')) if ref else []:
            d = nodes.get(e, '')
            if 'DW_TAG_member' in d:
                mem[self.attr(d, 'name')] = (int(self.attr(d, 'offset') or 0) // 8, self.attr(d, 'baseType'))
        return (int(self.attr(s, 'size') or 0) // 8, mem)
    def size(self, struct): return self.structs[struct][1][0]
    def field(self, struct, path):
        """(offset, key) of e.g. field('vm', 'for_stack[2].code_state.pc')"""
        mod, (sz, mem) = self.structs[struct]
        off = 0
        parts = re.findall(r'[A-Za-z_]\w*|\[\d+\]', path)
        cur = ('struct', sz, mem)
        for p in parts:
            if p[0] == '[':
                el = self.tinfo(mod, self.strip(mod, cur[1]))
                esz = self.sizeof(mod, el)
                off += int(p[1:-1]) * esz
                cur = el
            else:
                o, ref = cur[2][p]
                off += o
                cur = self.tinfo(mod, self.strip(mod, ref))
        if cur[0] == 'int': return off, 'i%d' % (8 * cur[1])
        if cur[0] in ('ptr', 'f64'): return off, cur[0]
        return off, cur
    def sizeof(self, mod, t):
        if t[0] == 'arr':
            return t[2] * self.sizeof(mod, self.tinfo(mod, self.strip(mod, t[1])))
        return t[1]
    def scalars(self, struct, path=''):
        """all scalar leaves of a struct: [(path, off, key)]"""
        mod, (sz, mem) = self.structs[struct]
        out = []
        def go(p, off, t):
            if t[0] == 'struct':
                for n, (o, ref) in t[2].items():
                    go(p + '.' + n if p else n, off + o, self.tinfo(mod, self.strip(mod, ref)))
            elif t[0] == 'arr':
                el = self.tinfo(mod, self.strip(mod, t[1]))
                es = self.sizeof(mod, el)
                for i in range(t[2]): go('%s[%d]' % (p, i), off + i * es, el)
            elif t[0] == 'int': out.append((p, off, 'i%d' % (8 * t[1])))
            else: out.append((p, off, t[0]))
        go('', 0, ('struct', sz, mem))
        return out
