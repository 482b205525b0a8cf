"""Seeded generation of the programs the generated-code simulator runs."""
import os, random, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']
SIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'long double': 16}
FEATURES = ['--feature-labels-as-values', '--feature-statement-expressions', '--feature-omitted-conditional-operand']

def compute_units(R):
    """[(name, kefir source)]"""
    parts = re.split(r'^//// (\w+)\n', open(HERE + '/templates.c').read(), flags=re.M)[1:]
    out = []
    for name, body in zip(parts[::2], parts[1::2]):
        sub = {'I': R.choice(['char', 'short', 'int', 'long', 'unsigned char', 'unsigned short', 'unsigned', 'unsigned long']), 'F': R.choice(['float', 'double']), 'C': str(R.randrange(1, 1 << 31)),
               'N': str(R.randint(3, 8)), 'M': str(R.randint(3, 12)), 'W1': str(R.randint(1, 20)), 'W2': str(R.randint(2, 20)), 'W3': str(R.randint(33, 60)), 'BIG': str(R.choice([40, 90, 300, 700])),
               'AL': str(R.choice([8, 16, 32])), 'AA': str(R.choice([16, 32, 64, 64, 128, 256])), 'AB': str(R.choice([8, 64, 128])), 'U': name}
        out.append((name, '#define UNIT _%s\n#include "env.h"\n' % name + re.sub(r'@(\w+)@', lambda m: sub[m.group(1)], body)))
    return out

# ---------------------------------------------------------------- thread-local objects
def tls_units(R, count):
    kdef, kuse, host, table = [], [], ['typedef unsigned long u64;'], []
    def in_block(code, decl): return code.replace(') { ', ') { extern _Thread_local %s; ' % decl)
    def use(sdef, decl, code):
        if R.random() < .3: return '%s\n%s' % (sdef, in_block(code, decl))
        return '%s\nextern _Thread_local %s;\n%s' % (sdef, decl, code)
    for i in range(count):
        ty = R.choice(INTS); sz = SIZE[ty]; mask = (1 << (8 * sz)) - 1
        form = ['kdef', 'kdef', 'hdef', 'kstatic', 'klocal'][i % 5]
        init = R.choice([None, 0, R.randrange(1, 1 << 31)])
        shape = R.choice(['plain', 'plain', 'array', 'struct'])
        al = R.choice([0, 0, 0, 16, 64]) if form != 'klocal' else 0
        n = 'tv%d' % i
        iv = init or 0
        lim = (1 << (8 * sz - 1)) - 1
        iv = iv & lim & 0x7fffffff
        if shape == 'plain': decl, acc, ini = '%s %s' % (ty, n), n, str(iv)
        elif shape == 'array': decl, acc, ini = '%s %s[5]' % (ty, n), n + '[3]', '{ 1, 2, 3, %d, 5 }' % iv
        else: decl, acc, ini = 'struct ts%d %s' % (i, n), n + '.m', '{ 9, %d, { 7, 8 } }' % iv
        sdef = 'struct ts%d { char a; %s m; short z[2]; };' % (i, ty) if shape == 'struct' else ''
        ini = '' if init is None else ' = ' + ini
        if init is None: iv = 0
        alk = '_Alignas(%d) ' % al if al else ''
        acc_code = 'u64 k_get_%s(void) { return (u64) %s; }\nvoid k_set_%s(u64 v) { %s = (%s) v; }\nu64 k_addr_%s(void) { return (u64) &%s; }\n' % (n, acc, n, acc, ty, n, acc)
        hacc = 'u64 h_get_%s(void) { return (u64) %s; }\nvoid h_set_%s(u64 v) { %s = (%s) v; }\nu64 h_addr_%s(void) { return (u64) &%s; }\n' % (n, acc, n, acc, ty, n, acc)
        hvia = '%s *k_addr_%s(void);\nu64 h_get_%s(void) { return (u64) *k_addr_%s(); }\nvoid h_set_%s(u64 v) { *k_addr_%s() = (%s) v; }\nu64 h_addr_%s(void) { return (u64) k_addr_%s(); }\n' % (ty, n, n, n, n, n, ty, n, n)
        if form == 'kdef':
            kdef.append('%s\n%s_Thread_local %s%s;' % (sdef, alk, decl, ini))
            pass
            k = R.random()
            if k < .4: kdef.append(acc_code)
            elif k < .5: kdef.append(in_block(acc_code, decl))
            else: kuse.append(use(sdef, decl, acc_code))
            host.append('%s\nextern _Thread_local %s;\n%s' % (sdef, decl, hacc))
        elif form == 'hdef':
            host.append('%s\n%s_Thread_local %s%s;\n%s' % (sdef, alk, decl, ini, hacc))
            kuse.append(use(sdef, decl, acc_code))
        elif form == 'kstatic':
            kuse.append('%s\nstatic %s_Thread_local %s%s;\n%s' % (sdef, alk, decl, ini, acc_code)); host.append(hvia)
        else:
            body = '%s\nstatic %s *l_%s(void) { static _Thread_local %s%s; return &%s; }\n' % (sdef, ty, n, decl, ini, acc)
            kuse.append(body + 'u64 k_get_%s(void) { return (u64) *l_%s(); }\nvoid k_set_%s(u64 v) { *l_%s() = (%s) v; }\nu64 k_addr_%s(void) { return (u64) l_%s(); }\n' % (n, n, n, n, ty, n, n)); host.append(hvia)
        need = max(sz, al if shape == 'plain' else sz)
        signed = ty in ('char', 'signed char', 'short', 'int', 'long')
        table.append((n, form, shape, sz, need, iv & mask, mask))
    pre = 'typedef unsigned long u64;\n'
    tab = 'struct GTls g_tls[] = {\n' + ''.join('{"%s-%s-%s", %d, %d, %duL, %duL, k_get_%s, k_set_%s, (u64 (*)(void)) k_addr_%s, h_get_%s, h_set_%s, h_addr_%s},\n' % (n, f, s, z, a, iv, m, n, n, n, n, n, n) for n, f, s, z, a, iv, m in table) + '{0}};\nint g_ntls = %d;\n' % len(table)
    protos = ''.join('u64 k_get_%s(void); void k_set_%s(u64); u64 k_addr_%s(void); u64 h_get_%s(void); void h_set_%s(u64); u64 h_addr_%s(void);\n' % ((t[0],) * 6) for t in table)
    return [('tlsdef', pre + '\n'.join(kdef)), ('tlsuse', pre + '\n'.join(kuse))], '\n'.join(host), protos + tab

# ---------------------------------------------------------------- structures and stores
class TypeGen:
    def __init__(self, R, tag): self.R, self.tag, self.n, self.defs, self.run = R, tag, 0, [], 0
    def struct(self, depth, union=False):
        R = self.R; name = '%s_%d' % (self.tag, self.n); self.n += 1
        mem, leaves, stores = [], [], []   # leaves: (path suffix, type or None for union, bit run or -1); stores: (suffix, kind, type)
        k = R.randint(2, 3) if union else R.randint(3, 7)
        i = 0
        while i < k:
            m = 'm%d' % i; i += 1
            c = R.random()
            if c < .40:
                t = R.choice(INTS + ['_Bool', 'float', 'double', 'long double'][:(4 if R.random() < .3 else 3)])
                mem.append('%s %s;' % (t, m)); leaves.append(('.' + m, t, -1))
            elif c < .70 and not union:
                self.run += 1
                for j in range(R.randint(1, 4)):
                    t = R.choice(['int', 'unsigned', 'short', 'unsigned char', 'unsigned long', 'long', '_Bool', 'unsigned'])
                    w = 1 if t == '_Bool' else R.randint(1, SIZE[t] * 8 - 1)
                    if R.random() < .5: w = min(w, 9)
                    mem.append('%s %sb%d : %d;' % (t, m, j, w)); leaves.append(('.%sb%d' % (m, j), t, self.run))
                    x = R.random()
                    if x < .12: mem.append('%s : 0;' % t); self.run += 1
                    elif x < .2: mem.append('%s : %d;' % (t, R.randint(1, 5)))
                # an adjacent bit-field member in the next round would continue the run: separate it by a scalar
                t = R.choice(['char', 'char', 'short', 'int', '_Bool'])
                mem.append('%s %ss;' % (t, m)); leaves.append(('.%ss' % m, t, -1))
            elif c < .80:
                t = R.choice(INTS + ['double']); n = R.randint(2, 4)
                mem.append('%s %s[%d];' % (t, m, n))
                for j in range(n): leaves.append(('.%s[%d]' % (m, j), t, -1))
            elif c < .90 and depth > 0:
                s, l2 = self.struct(depth - 1)
                mem.append('struct %s %s;' % (s, m))
                for p, t, b in l2: leaves.append(('.' + m + p, t, b))
                stores.append(('.' + m, 'struct', s))
            elif depth > 0 and not union:
                s, l2 = self.struct(0, True)
                mem.append('union %s %s;' % (s, m)); leaves.append(('.' + m, None, -1))
                for p, t, b in l2: stores.append(('.' + m + p, 'union:.' + m, t))
            else:
                mem.append('char *%s;' % m); leaves.append(('.' + m, 'char *', -1))
        self.defs.append('%s %s { %s };' % ('union' if union else 'struct', name, ' '.join(mem)))
        self.extra = getattr(self, 'extra', {}); self.extra[name] = stores
        return name, leaves

def forms(R, lv, t, bit):
    if t == 'char *': return ['%s = (char *) v;' % lv, '%s++;' % lv, '%s += 3;' % lv, '%s--;' % lv]
    f = ['%s = (%s) v;' % (lv, t), '%s += 1;' % lv, '%s++;' % lv, '--%s;' % lv, '%s -= 1;' % lv, '%s = %s;' % (lv, lv), 'if (v & 1) %s = 1; else %s = 0;' % (lv, lv), '%s = v & 1 ? 1 : 0;' % lv, 'for (int i = 0; i < 3; i++) %s = (%s) (v + i);' % (lv, t)]
    if t not in ('float', 'double', 'long double'): f += ['%s ^= (%s) v;' % (lv, t), '%s |= 1;' % lv, '%s &= (%s) v;' % (lv, t), '%s <<= 1;' % lv, '%s %%= 3;' % lv, '%s *= 3;' % lv]
    if not bit: f += ['%s *q = &%s; *q = (%s) v;' % (t, lv, t), '%s *q = &%s; *q++ = 1; (void) q;' % (t, lv), '*&%s = 1;' % lv]
    return f

def store_units(R, ntypes, tag):
    """kefir source, table text"""
    tab, rows, units = [], [], []
    for ti in range(ntypes):
        src = []; units.append(src)
        g = TypeGen(R, 'S%s%d' % (tag, ti)); name, leaves = g.struct(2)
        T = 'struct ' + name; pre = '%s%d' % (tag, ti)
        src += g.defs
        src.append('u64 %s_size(void) { return sizeof(%s); }' % (pre, T))
        lrows, srows, protos = [], [], ['u64 %s_size(void);' % pre]
        def loc(fn, lv): src.append('void %s(%s *p, u64 v, u64 *a, u64 *n) { *a = (u64) &(%s); *n = sizeof(%s); }' % (fn, T, lv, lv)); protos.append('void %s(void *, u64, u64 *, u64 *);' % fn)
        for li, (p, t, b) in enumerate(leaves):
            lv = '(*p)' + p
            if b >= 0:
                src.append('void %s_ones%d(%s *p) { %s = (%s) -1; }' % (pre, li, T, lv, t)); protos.append('void %s_ones%d(void *);' % (pre, li))
                lrows.append('{1, %d, 0, %s_ones%d}' % (b, pre, li))
            else:
                loc('%s_loc%d' % (pre, li), lv); lrows.append('{0, -1, %s_loc%d, 0}' % (pre, li))
        def store(body, leaf, locfn):
            n = '%s_st%d' % (pre, len(srows))
            src.append('void %s(%s *p, u64 v) { %s }' % (n, T, body)); protos.append('void %s(void *, u64);' % n)
            srows.append('{"%s", "%s", %d, %s, %s}' % (n, body.replace('\\', '\\\\').replace('"', '\\"'), leaf, locfn or '0', n))
        for li, (p, t, b) in enumerate(leaves):
            lv = '(*p)' + p
            if t is None: continue
            fs = forms(R, lv, t, b >= 0)
            first = [fs[0]] if True else []
            for body in dict.fromkeys(first + R.sample(fs, 2)): store(body, li if b >= 0 else -1, None if b >= 0 else '%s_loc%d' % (pre, li))
            m = re.match(r'(.*)\[0\]$', p)
            if m and b < 0:
                n = sum(1 for q in leaves if q[0].startswith(m.group(1) + '['))
                src.append('void %s_aloc%d(%s *p, u64 v, u64 *a, u64 *n) { *a = (u64) &(*p)%s[v %% %d]; *n = sizeof((*p)%s[0]); }' % (pre, li, T, m.group(1), n, m.group(1))); protos.append('void %s_aloc%d(void *, u64, u64 *, u64 *);' % (pre, li))
                store('(*p)%s[v %% %d] = (%s) v;' % (m.group(1), n, t), -1, '%s_aloc%d' % (pre, li))
                store('%s *q = (*p)%s; q += v %% %d; *q += 1;' % (t, m.group(1), n), -1, '%s_aloc%d' % (pre, li))
        def nested(s, prefix):
            for k, (p, kind, t) in enumerate(g.extra.get(s, [])):
                full = prefix + p
                if kind == 'struct':
                    fn = '%s_nloc%d' % (pre, len(src)); loc(fn, '(*p)' + full)
                    src.append('static struct %s %s_mk%d(u64 v) { static const struct %s z[2]; struct %s r = z[v & 1]; return r; }' % (t, pre, len(src), t, t)); mk = '%s_mk%d' % (pre, len(src) - 1)
                    store('(*p)%s = %s(v);' % (full, mk), -1, fn)
                    store('struct %s t = %s(v); (*p)%s = t;' % (t, mk, full), -1, fn)
                    store('(*p)%s = (struct %s) { 0 };' % (full, t), -1, fn)
                    nested(t, full)
                else:
                    fn = '%s_uloc%d' % (pre, len(src)); loc(fn, '(*p)' + prefix + kind.split(':')[1])
                    if t: store('(*p)%s = (%s) v;' % (full, t), -1, fn)
        nested(name, '')
        fn = '%s_wloc' % pre; loc(fn, '*p')
        src.append('static %s %s_mkw(u64 v) { static const %s z[2]; return z[v & 1]; }' % (T, pre, T))
        store('*p = %s_mkw(v);' % pre, -1, fn); store('*p = (%s) { 1 };' % T, -1, fn); store('%s t = { 0 }; p[0] = t;' % T, -1, fn)
        tab += protos
        tab.append('static struct GLeaf %s_leaf[] = { %s };\nstatic struct GStore %s_store[] = { %s };' % (pre, ', '.join(lrows), pre, ', '.join(srows)))
        rows.append('{"%s", 0, %s_size, %d, %s_leaf, %d, %s_store}' % (pre, pre, len(lrows), pre, len(srows), pre))
    # adjacent global objects
    pre = 'G' + tag; lrows, srows = [], []; src = []; units.append(src)
    for gi in range(24):
        t = R.choice(INTS + ['_Bool', 'float', 'double', '_Bool', 'char', 'char', 'short']); n = '%sv%d' % (pre, gi)
        src.append('%s%s %s%s;' % (R.choice(['', 'static ']), t, n, R.choice(['', ' = 1'])))
        src.append('void %s_loc%d(void *p, u64 v, u64 *a, u64 *n) { *a = (u64) &%s; *n = sizeof(%s); }' % (pre, gi, n, n)); tab.append('void %s_loc%d(void *, u64, u64 *, u64 *);' % (pre, gi))
        lrows.append('{0, -1, %s_loc%d, 0}' % (pre, gi))
        fs = forms(R, n, t, False)
        for k, body in enumerate(dict.fromkeys([fs[0]] + R.sample(fs, 2))):
            f = '%s_st%d_%d' % (pre, gi, k)
            src.append('void %s(void *p, u64 v) { %s }' % (f, body)); tab.append('void %s(void *, u64);' % f)
            srows.append('{"%s", "%s %s", -1, %s_loc%d, %s}' % (f, t, body, pre, gi, f))
    tab.append('static struct GLeaf %s_leaf[] = { %s };\nstatic struct GStore %s_store[] = { %s };' % (pre, ', '.join(lrows), pre, ', '.join(srows)))
    rows.append('{"%s", 1, 0, %d, %s_leaf, %d, %s_store}' % (pre, len(lrows), pre, len(srows), pre))
    local_rows(R, tag, units, tab, rows)
    tab.append('struct GType g_types[] = { %s };\nint g_ntypes = %d;' % (', '.join(rows), len(rows)))
    return ['typedef unsigned long u64;\n' + '\n'.join(u) + '\n' for u in units], '\n'.join(tab) + '\n'

def local_rows(R, tag, units, tab, rows):
    """aggregates returned through memory (the caller's object is the target) and adjacent local objects"""
    for ti in range(4):
        pre = 'R%s%d' % (tag, ti); src = []; units.append(src); srows = []
        t = R.choice(['char', 'char', 'char', 'short', 'int']); n = R.randint(17, 45) // SIZE.get(t, 1) + (1 if t != 'char' else 0)
        if t != 'char': n = max(n, 17 // SIZE[t] + 1)
        T = 'struct ' + pre
        src.append('%s { %s c[%d]; };\nu64 %s_size(void) { return sizeof(%s); }' % (T, t, n, pre, T))
        src.append('void %s_loc(%s *p, u64 v, u64 *a, u64 *n) { *a = (u64) p; *n = sizeof(*p); }' % (pre, T))
        src.append('%s %s_g; %s %s_ga[3]; static %s %s_in(u64 v) { %s r = { .c[1] = (%s) v }; return r; }' % (T, pre, T, pre, T, pre, T, t))
        tab.append('u64 %s_size(void); void %s_loc(void *, u64, u64 *, u64 *);' % (pre, pre))
        for k, body in enumerate(['%s r = { 0 }; r.c[v %% %d] = (%s) v; return r;' % (T, n, t), 'return %s_g;' % pre, 'return %s_ga[v %% 3];' % pre, 'return (%s) { .c[%d] = (%s) v };' % (T, n - 1, t), 'return %s_in(v);' % pre, 'static const %s z[2]; if (v & 1) return z[0]; return z[1];' % T]):
            f = '%s_st%d' % (pre, k)
            src.append('%s %s(u64 v) { %s }' % (T, f, body)); tab.append('void %s(void *, u64);' % f)
            srows.append('{"%s", "%s", -1, %s_loc, (void (*)(void *, u64)) %s}' % (f, ('%s c[%d]: ' % (t, n) + body).replace('"', "'"), pre, f))
        tab.append('static struct GLeaf %s_leaf[] = { {0, -1, %s_loc, 0} };\nstatic struct GStore %s_store[] = { %s };' % (pre, pre, pre, ', '.join(srows)))
        rows.append('{"%s", 0, %s_size, 1, %s_leaf, %d, %s_store}' % (pre, pre, pre, len(srows), pre))
    for ti in range(2):
        pre = 'L%s%d' % (tag, ti); src = []; units.append(src); srows = []
        src.append('struct %s_o { char c[3]; }; struct %s_p { short a; char b; }; struct %s_q { char a[5]; }; struct %s_b { unsigned a : 3; unsigned b : 7; unsigned char c; };' % ((pre,) * 4))
        src.append('struct %s_w { char c[23]; }; static struct %s_w %s_mk(u64 v) { struct %s_w r = { { 1 } }; return r; } static struct %s_q %s_mq(u64 v) { struct %s_q r = { { 2 } }; return r; }' % ((pre,) * 7))
        for k in range(12):
            decl, regs = [], []
            def nb():
                x = 'x%d' % len(regs)
                d = R.choice(['char %s;', 'char %s;', 'char %s[3];', 'short %s;', '_Bool %s;', 'int %s;', 'struct ' + pre + '_o %s;', 'struct ' + pre + '_p %s;', 'char %s[7];', 'long %s;', 'float %s;'])
                decl.append(d % x); regs.append(x)
            for _ in range(R.randint(1, 3)): nb()
            n = R.randint(1, 21)
            tgt = R.choice([('char y[%d] = { 0 };' % n, 0), ('char y[%d] = { [%d] = (char) v };' % (n, R.randrange(n)), 0), ('char y[%d] = "ab";' % (n + 2), 0), ('struct %s_o y = { 0 };' % pre, 0), ('struct %s_o y = { { (char) v } };' % pre, 0),
                            ('struct %s_p y = { 1 };' % pre, 0), ('struct %s_q y = { .a[1] = (char) v };' % pre, 0), ('struct %s_b y = { 1, (unsigned) v, 3 };' % pre, 0), ('struct %s_o y[3] = { [1] = { { 1 } } };' % pre, 0),
                            ('struct %s_w y = %s_mk(v);' % (pre, pre), 0), ('struct %s_q y = %s_mq(v);' % (pre, pre), 0), ('short y[%d] = { (short) v };' % n, 0), ('_Bool y = v & 2;', 0), ('char y = (char) v;', 0), ('short y = (short) v;', 0),
                            ('char y[%d][3] = { { 1 }, { (char) v } };' % max(2, n // 3), 0), ('struct { char k; struct %s_q z; } y = { .z.a[2] = 4 };' % pre, 0), ('struct %s_q y = (struct %s_q) { { 1, 2 } };' % (pre, pre), 0), ('wchar%s y[3] = { 1 };' % pre, 1)][:-1])[0]
            later = []
            for _ in range(R.randint(1, 3)):
                nb(); later.append(decl.pop())
            order = decl, later
            f = '%s_st%d' % (pre, k)
            body = 'int once = 0; ' + ' '.join(decl) + ' again: ; ' + tgt + ' ' + ' '.join(later) + ' if (!once) { once = 1; ' + ' '.join('tab[%d] = (u64) &%s; tab[%d] = sizeof(%s);' % (2 * i, x, 2 * i + 1, x) for i, x in enumerate(regs)) + ' tab[40] = (u64) &y; tab[41] = sizeof(y); tab[42] = %d; tab[43] = 1; goto again; } tab[43] = 2;' % len(regs)
            src.append('void %s(volatile u64 *tab, u64 v) { %s }' % (f, body)); tab.append('void %s(void *, u64);' % f)
            srows.append('{"%s", "%s", -1, 0, (void (*)(void *, u64)) %s}' % (f, (' '.join(decl) + ' ' + tgt + ' ' + ' '.join(later)).replace('"', "'"), f))
        tab.append('static struct GStore %s_store[] = { %s };' % (pre, ', '.join(srows)))
        rows.append('{"%s", 2, 0, 0, 0, %d, %s_store}' % (pre, len(srows), pre))

# ---------------------------------------------------------------- volatile programs
def volatile_units(R, count):
    regs = []
    for i in range(14):
        t = R.choice(INTS + ['_Bool', 'float', 'double', 'int', 'unsigned', 'char *'])
        regs.append((('B' if t == '_Bool' else 'F' if t == 'float' else 'D' if t == 'double' else 'P' if t == 'char *' else 'r') + str(i), t))
    ints = [r for r in regs if r[0][0] == 'r'] or [('r99', 'int')]
    if ints[0][0] == 'r99': regs.append(ints[0])
    fl = [r for r in regs if r[0][0] in 'FD']
    q = []
    for n, t in regs: q.append('volatile %s %s;' % (t, n) if t != 'char *' else 'char *volatile %s;' % n)
    arr = R.choice(['int', 'short', 'unsigned char'])
    dev = 'struct dev { %s volatile %s a0[4]; struct { char k; volatile short n0; } in; };' % (' '.join(q), arr)
    allregs = [(n, '%s' % n, t) for n, t in regs] + [('a0_%d' % i, 'a0[%d]' % i, arr) for i in range(4)] + [('in_n0', 'in.n0', 'short')]
    def I(): return 'd->' + R.choice(ints)[0]
    def rd():
        c = R.random()
        if c < .55: return I()
        if c < .7: return 'd->a0[%s]' % R.choice(['1', 's & 3', 'x & 3'])
        if c < .8: return 'd->in.n0'
        if c < .9: return '*(volatile %s *) &d->%s' % (lambda r: (r[1], r[0]))(R.choice(ints))
        if c < .96:
            n, t = R.choice(ints)
            return R.choice(['(*d).%(n)s', 'd[0].%(n)s', '*&d->%(n)s', '(&d->%(n)s)[0]', '0[&d->%(n)s]', '((volatile struct dev *) d)->%(n)s', '((const volatile struct dev *) (void *) d)->%(n)s', '(*(const volatile %(t)s *) (void *) &d->%(n)s)', '*(v_%(u)s *) &d->%(n)s', '*(d->a0 + (s & 3))', '1[d->a0]', '(d->%(n)s)', '**(volatile %(t)s *[1]) { &d->%(n)s }', '(s, d)->%(n)s', '(s & 1 ? d : d + 0)->%(n)s', '(&d->in)->n0', '(*(volatile struct { char k; short n0; } *) &d->in).n0']) % {'n': n, 't': t, 'u': t.replace(' ', '_')}
        b = [r for r in regs if r[0][0] == 'B']
        return 'd->' + b[0][0] if b else I()
    def pure(): return R.choice(['1', '7', 's', 'x', 'x + s', 's >> 3', '(s & 15)', 'y', 'y * 3', '-1', '~x'])
    def lv():
        c = R.random()
        if c < .6: return R.choice(regs if R.random() < .8 else ints)
        if c < .8: return ('a0[%s]' % R.choice(['2', 's & 3']), arr)
        return ('in.n0', 'short')
    def rexpr(depth):
        """expression with volatile reads whose order the language fixes"""
        c = R.random()
        if depth <= 0 or c < .3: return '(u64) ' + rd()
        if c < .4: return '(%s && %s)' % (rexpr(depth - 1), rexpr(depth - 1))
        if c < .5: return '(%s || %s)' % (rexpr(depth - 1), rexpr(depth - 1))
        if c < .62: return '(%s ? %s : %s)' % (rexpr(depth - 1), rexpr(depth - 1), rexpr(depth - 1))
        if c < .72: return '(%s, %s)' % (rexpr(depth - 1), rexpr(depth - 1))
        if c < .85: return '(%s %s %s)' % (rexpr(depth - 1), R.choice(['+', '-', '*', '^', '&', '|', '==', '<']), pure())
        if c < .92: return '(%s%s)' % (R.choice(['!', '~', '-']), rexpr(depth - 1))
        return '(u64) (%s) %s' % (R.choice(INTS), rexpr(depth - 1))
    def stmt(depth):
        c = R.random()
        if c < .18: return 'x = x * 31 + %s;' % rexpr(2)
        if c < .26: return '%s;' % rd()
        if c < .30: return '(void) %s;' % rd()
        if c < .45:
            n, t = lv()
            if t == 'char *': return 'd->%s = (char *) (%s);' % (n, pure())
            if t in ('float', 'double'): return 'd->%s = (%s) (int) ((%s) & 0xff);' % (n, t, pure())
            return 'd->%s = (%s) (%s);' % (n, t, pure())
        if c < .52:
            n, t = lv()
            if t == '_Bool': return 'd->%s = x & 1;' % n
            return R.choice(['d->%s++;', '++d->%s;', 'd->%s--;', '--d->%s;']) % n
        if c < .60:
            n, t = lv()
            if t in ('float', 'double'): return 'd->%s %s= 2;' % (n, R.choice('+-*'))
            if t == 'char *': return 'd->%s += 3;' % n
            if t == '_Bool': return 'd->%s |= 1;' % n
            if R.random() < .3: return 'd->%s %s;' % (n, R.choice(['/= 3', '%%= (%s) 7' % t, '<<= 1', '>>= (%s) 2' % t, '/= (unsigned char) 5', '>>= (%s) (s & 3)' % t]))
            return 'd->%s %s= (%s) ((%s) | 1);' % (n, R.choice(['+', '-', '^', '|', '&', '*']), t, pure())
        if c < .64:
            n, t = R.choice(ints)
            return 'x += (u64) %s;' % (R.choice(['d->%s++', 'd->%s--']) % n)
        if c < .70: return 'if (%s) { %s }' % (rexpr(1), stmt(0)) + (' else { %s }' % stmt(0) if R.random() < .5 else '')
        if c < .75: return 'for (int i = 0; i < 3 && (%s); i++) { %s }' % (rexpr(1), stmt(0))
        if c < .79: return '{ int k = 4; while (k-- && (%s & 1)) x++; }' % rd()
        if c < .83: return 'switch (%s & 3) { case 0: x++; break; case 1: x ^= %s; case 2: %s break; default: %s }' % (rd(), rexpr(0), stmt(0), stmt(0))
        if c < .86: return 'x += sizeof(%s) + (u64) (&%s == 0);' % (I(), I())
        if c < .89: return 'x = h_use(x, %s);' % rexpr(1)
        if c < .92 and fl: n, t = R.choice(fl); return 'x += (u64) (long) (d->%s * 2);' % n
        if R.random() < .5:
            if R.random() < .35:
                n, t = R.choice(regs)
                f = ['if (d->%s) x += 3; else y++;', 'x += !d->%s;', 'd->%s;', 'x += d->%s ? 5 : 6;', 'x += d->%s && s;', 'x += (s & 1) || d->%s;', '(d->%s);', '*&d->%s;', 's & 2 ? (void) d->%s : (void) 0;', 'for (int k = 0; d->%s; ) { if (k++ > 2) break; }', 'for (int i = 0; i < 2; i++, d->%s) x++;', '{ int k = 0; for (d->%s; k < 2; k++) y++; }', 'x += ({ d->%s; }) ? 1 : 2;', 'x += (0, d->%s) ? 1 : 2;', '{ int k = 2; do { if (k == 1) continue; x++; } while (k-- && d->%s); }', 'if (!d->%s) goto out#; x++; out#: y++;', '{ struct dev *q = d; q->%s; x += q->@ != 0; }', '((volatile struct dev *) d)->%s;', 'x += !!((volatile struct dev *) d)->%s;', 'if (s & 1) d->%s; else x++;', 'x += (d->%s == 0);', '{ struct dev *volatile e = d; e->%s; x += e->@ != 0; }']
                f += ['+d->%s;', '-d->%s;', 'x += (u64) (long) (d->%s < 2);', '(int) d->%s;', 'd->%s == 1;', 'x += (u64) (int) (d->%s + 0);'] if t not in ('char *',) else ['x += (d->%s != (char *) 8);', '(long) d->%s;']
                return R.choice(f).replace('@', '%s').replace('%s', n).replace('#', str(R.randrange(10**9)))
            if R.random() < .2:
                n, t = R.choice(ints)
                return R.choice(['x += sizeof(char[1 + ((unsigned char) d->%s & 3)]);', '{ char q[1 + ((unsigned char) d->%s & 3)]; q[0] = 1; x += sizeof(q) + q[0]; }', 'x += (u64) (__builtin_alloca(16 + ((unsigned char) d->%s & 3)) == 0);', 'for (int i = d->%s & 3; i > 0; i--) x++;', 'switch ((long) d->%s) { case -1: x++; case 0: case 1: y++; break; default: x += 2; }', '{ u64 q[2][2] = { { 1, (u64) d->%s }, { [1] = 3 } }; x += q[0][1] + q[1][0]; }', 'x += ((struct { int a; u64 b; }) { .b = (u64) d->%s }).b;', '{ u64 *q = (u64[]) { 4, (u64) d->%s }; x += q[1]; }', 'x += (u64) ((char) d->%s) + (u64) ((short) s);', 'x += ((u64 (*)(u64, u64)) h_use)(1, (u64) d->%s);']) % n
            n, t = R.choice(ints); k = R.randrange(17)
            return ['x += (u64) (d->%s ?: 5);' % n, 'x ^= ({ u64 t = (u64) d->%s; t * 3; });' % n, '{ int q[3] = { 1, (int) d->%s, 2 }; x += (u64) q[1]; }' % n, '{ struct { int a; %s b; } q = { .b = d->%s }; x += (u64) q.b; }' % (t, n),
                    'x += CAT(PRE, rd_%s)(&d->%s);' % (t.replace(' ', '_'), n), 'CAT(PRE, wr_%s)(&d->%s, (%s) (%s));' % (t.replace(' ', '_'), n, t, pure()), '!d->%s;' % n, 'd->%s, x++;' % n, '(void) (s & 1 ? %s : %s);' % (I(), I()),
                    '%s + 1;' % I(), 'x += _Generic(d->%s, default: 3);' % n, '{ int k = 3; do x += (u64) %s; while (--k && %s); }' % (I(), I()), '{ u64 t[4] = { 1, 2, 3, 4 }; x += t[%s & 3]; t[%s & 3] = x; y += t[1]; }' % (I(), I()),
                    'if (%s > %s) x++; else if (%s) y++;' % (I(), pure(), I()), 'x += (u64) (%s %s %s);' % (rd(), R.choice(['<<', '>>']), R.choice(['1', '3'])), 'x += (u64) (unsigned char) %s / 3 + (u64) (s %% 5);' % I(), '%s && (x++, %s) || (y += 2, %s);' % (I(), I(), I())][k]
        if c < .95: n, t = R.choice(ints); return '{ volatile %s *q = &d->%s; %s t = *q; *q = (%s) (t + 1); x += (u64) t; }' % (t, n, t, t)
        if c < .97: n, t = R.choice(ints); return 'd->%s = (%s) (%s);' % (n, t, rexpr(1))
        return '{ u64 t = %s; y = t ^ y; }' % rexpr(2)
    kern, tab, rows = [], [], []
    for i in range(count):
        body = ' '.join(stmt(1) for _ in range(R.randint(1, 6)))
        kern.append('u64 CAT(PRE, v%d)(struct dev *d, u64 s) { u64 x = s, y = 3; %s return x + y; }' % (i, body))
        tab.append('u64 kv%d(void *, u64); u64 hv%d(void *, u64);' % (i, i))
        rows.append('{"v%d", "%s", kv%d, hv%d}' % (i, body.replace('"', "'"), i, i))
    hdr = 'typedef unsigned long u64;\n#define CAT2(a, b) a##b\n#define CAT(a, b) CAT2(a, b)\n' + dev + '\nu64 h_use(u64 a, u64 b);\n' + ''.join('typedef volatile %s v_%s;\n' % (t, t.replace(' ', '_')) for t in INTS)
    hdr2 = ''.join('static u64 CAT(PRE, rd_%s)(volatile %s *p) { return (u64) *p; }\nstatic void CAT(PRE, wr_%s)(volatile %s *p, %s v) { *p = v; }\n' % (t.replace(' ', '_'), t, t.replace(' ', '_'), t, t) for t in INTS)
    src = hdr + hdr2 + '\n'.join(kern) + '\n'
    rt = hdr.replace('u64 h_use(u64 a, u64 b);', 'u64 h_use(u64 a, u64 b) { return a * 5 + b; }').replace('typedef unsigned long u64;', '')
    regtab = 'struct GReg g_regs[] = { %s };\nint g_nregs = %d, g_devsize = sizeof(struct dev);' % (', '.join('{"%s", __builtin_offsetof(struct dev, %s), sizeof(((struct dev *) 0)->%s)}' % (n, p, p) for n, p, t in allregs), len(allregs))
    return src, rt + '\n'.join(tab) + '\n' + regtab + '\nstruct GDev g_devs[] = { %s };\nint g_ndevs = %d;\n' % (', '.join(rows), len(rows))

# ---------------------------------------------------------------- a world
EMPTY = {'units': 'struct GUnit g_units[1]; int g_nunits = 0;\n', 'tls': 'struct GTls g_tls[1]; int g_ntls = 0;\n', 'types': 'struct GType g_types[1]; int g_ntypes = 0;\n',
         'dev': 'struct GReg g_regs[1]; int g_nregs, g_devsize; struct GDev g_devs[1]; int g_ndevs = 0;\n'}
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)

def kcompile(kefir, src, out, d, defs=()):
    """kefir -> as; returns None or an error"""
    c = out + '.c'
    with open(c, 'w') as f: f.write(src)
    try: r = sh([kefir] + FEATURES + ['-I', HERE] + sum((['-D', x] for x in defs), []) + [c], timeout=60)
    except subprocess.TimeoutExpired: return 'kefir: timeout'
    if r.returncode: return 'kefir: ' + (r.stderr.strip().split('\n') or [''])[-1]
    with open(out + '.s', 'w') as f: f.write(r.stdout)
    r = sh(['as', '-o', out + '.o', out + '.s'])
    if r.returncode: return 'as: ' + r.stderr[:200]
    sh(['objcopy', '--rename-section', '.data=kgen_data', '--rename-section', '.bss=kgen_bss', out + '.o'])
    return None

def build_world(prop, seed, w, kefir, runtime_o, harness_o, d):
    """builds world w of the property into directory d; returns (exe, info)"""
    R = random.Random('%s/%s/%s' % (prop, seed, w)); os.makedirs(d, exist_ok=True)
    objs, errs, tab, host, units, hobjs = [], [], {}, '', [], []
    if prop in ('C14', 'C15'):
        ok = []
        for n, s in compute_units(R):
            e = kcompile(kefir, s, d + '/u_' + n, d)
            if e: errs.append((n, e))
            else: ok.append(n); objs.append(d + '/u_%s.o' % n)
        tab['units'] = ''.join('u64 kf_%s(void *, u64);\n' % n for n in ok) + 'struct GUnit g_units[] = { %s };\nint g_nunits = %d;\n' % (', '.join('{"%s", kf_%s}' % (n, n) for n in ok), len(ok))
        units = ok
    if prop == 'C15':
        us, host, t = tls_units(R, 15)
        bad = []
        for n, s in us:
            e = kcompile(kefir, s, d + '/u_' + n, d)
            if e: bad.append((n, e))
            else: objs.append(d + '/u_%s.o' % n)
        errs += bad
        tab['tls'] = t
        if bad: return None, {'errors': errs, 'broken': [x for x in bad if x[1].startswith('as:')]}
    if prop == 'C16':
        s, t = store_units(R, 14, 'w')
        for i, u in enumerate(s):
            e = kcompile(kefir, u, d + '/u_store%d' % i, d)
            if e: return None, {'errors': [('store%d' % i, e)]}
            objs.append(d + '/u_store%d.o' % i)
        tab['types'] = t
    if prop == 'C17':
        s, t = volatile_units(R, 120)
        e = kcompile(kefir, s, d + '/u_vol', d, ['PRE=k'])
        if e: return None, {'errors': [('vol', e)]}
        objs.append(d + '/u_vol.o'); tab['dev'] = t
        r = sh(['gcc', '-c', '-w', '-O0', '-fwrapv', '-fno-strict-aliasing', '-fno-pie', '-DPRE=h', '-o', d + '/vol_h.o', d + '/u_vol.c'])
        if r.returncode: return None, {'errors': [('vol-host', r.stderr[:300])]}
        hobjs.append(d + '/vol_h.o')
    with open(d + '/table.c', 'w') as f:
        f.write('#include "gensim.h"\n' + ''.join(tab.get(k, v) for k, v in EMPTY.items()))
    with open(d + '/hosttls.c', 'w') as f: f.write(host)
    r = sh(['gcc', '-w', '-O1', '-fno-pie', '-no-pie', '-I', HERE, '-z', 'noexecstack', '-o', d + '/gensim', d + '/table.c', d + '/hosttls.c', HERE + '/host.c'] + harness_o + hobjs + objs + [runtime_o, '-lpthread', '-lstdc++'])
    if r.returncode: return None, {'errors': errs + [('link', r.stderr[-600:])], 'broken': [('link', r.stderr[-600:])] if prop == 'C15' and re.search(r'u_tls|tv\d|TLS|thread', r.stderr) else []}
    return d + '/gensim', {'errors': errs, 'units': units}
