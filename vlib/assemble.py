"""Builds the Verus file for one property from the extracted code and the contracts."""
import difflib
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(HERE, 'contracts')

ASSUMPTIONS = [
    'coordinates are modelled by their value (NaN, -inf, a real, +inf): the sign of zero and NaN payloads are abstracted away; comparisons and min/max are defined on values',
    'iterators are materialised as vectors in source order; closures are inlined at the iterator adapter; lazy evaluation order is not observable in the extracted code',
    'std containers and ordered_float::NotNan follow the specifications in contracts/theory/prelude.rs; generic numeric types of the crate are instantiated at the coordinate type',
    'strings, Debug/Display output and error message texts are dropped by the extraction',
    'usize is 64 bits for arithmetic overflow obligations only where a contract says so; memory allocation never fails',
]

HEADER = '''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
use std::ops::*;
use std::marker::PhantomData;
verus! {
'''


class Contract:
    def __init__(self, key):
        self.key = key
        self.spec = ''
        self.inv = {}
        self.dec = {}
        self.at = {}
        self.extra = ''
        self.impl = ''
        self.attr = ''
        self.refuse = {}
        self.ret = 'ret'
        self.rename = []
        self.mono = []
        self.subst = []
        self.trusted = None
        self.inherent = False
        self.where = ''
        self.noauto = set()
        self.use = []


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.ns = 'planar'
        self.theory = []
        self.fns = []
        self.trusted = []
        self.bounded = []
        self.note = ''
        self.rlimit = None
        self.broadcast = []
        self.assume = {}


def parse_contracts():
    cons = {}
    d = os.path.join(CON, 'fns')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.vc'):
            continue
        cur = None
        sec = None
        for ln, line in enumerate(open(os.path.join(d, fn)), 1):
            if line.startswith('@@'):
                w = line[2:].strip().split(None, 1)
                cmd, arg = w[0], (w[1].strip() if len(w) > 1 else '')
                if cmd == 'fn':
                    cur = Contract(arg)
                    if arg in cons:
                        raise SystemExit('duplicate contract %s' % arg)
                    cons[arg] = cur
                    cur.where = '%s:%d' % (fn, ln)
                    sec = ('spec',)
                elif cmd in ('inv', 'dec'):
                    sec = (cmd, int(arg))
                elif cmd == 'at':
                    sec = ('at', arg)
                elif cmd in ('spec', 'extra', 'impl', 'attr'):
                    sec = (cmd,)
                elif cmd == 'refuse':
                    a = arg.split(None, 1)
                    cur.refuse[int(a[0])] = a[1] if len(a) > 1 else 'true'
                elif cmd == 'ret':
                    cur.ret = arg
                elif cmd == 'rename':
                    cur.rename.append(tuple(x.strip() for x in arg.split('=>')))
                elif cmd == 'mono':
                    cur.mono = [x.strip() for x in arg.split(',')]
                elif cmd == 'trusted':
                    cur.trusted = arg
                elif cmd == 'inherent':
                    cur.inherent = True
                elif cmd == 'noauto':
                    cur.noauto.add(int(arg))
                elif cmd == 'use':
                    cur.use += arg.split()
                elif cmd == 'out':
                    a = arg.split(None, 1)
                    cur.subst.append(('let mut __out%s = Vec :: new()' % a[0], 'let mut __out%s: Vec<%s> = Vec :: new()' % (a[0], a[1])))
                elif cmd == 'subst':
                    cur.subst.append(tuple(x.strip() for x in arg.split('=>')))
                else:
                    raise SystemExit('%s:%d unknown directive %s' % (fn, ln, cmd))
                continue
            if cur is None:
                continue
            if line.lstrip().startswith('//#'):
                continue
            if sec[0] == 'spec':
                cur.spec += line
            elif sec[0] == 'inv':
                cur.inv[sec[1]] = cur.inv.get(sec[1], '') + line
            elif sec[0] == 'dec':
                cur.dec[sec[1]] = cur.dec.get(sec[1], '') + line
            elif sec[0] == 'at':
                cur.at[sec[1]] = cur.at.get(sec[1], '') + line
            else:
                setattr(cur, sec[0], getattr(cur, sec[0]) + line)
    return cons


def parse_props():
    props = {}
    cur = None
    for line in open(os.path.join(CON, 'props.txt')):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        w = line.split(None, 1)
        k, a = w[0], (w[1] if len(w) > 1 else '')
        if k == '@@prop':
            cur = Prop(a)
            props[a] = cur
        elif k == 'ns':
            cur.ns = a
        elif k == 'theory':
            cur.theory += a.split()
        elif k == 'fn':
            if a not in cur.fns:
                cur.fns.append(a)
        elif k == 'assume':
            key, spec = a.split(' :: ')
            cur.assume[key.strip()] = spec.strip()
            cur.fns.append(key.strip())
        elif k == 'include':
            src = props[a]
            for f in src.fns:
                if f not in cur.fns:
                    cur.fns.append(f)
            cur.assume.update(src.assume)
            for t in src.theory:
                if t not in cur.theory and not t.startswith('p_'):
                    cur.theory.append(t)
        elif k == 'bounded':
            cur.bounded.append(a)
        elif k == 'note':
            cur.note += a + ' '
        elif k == 'rlimit':
            cur.rlimit = a
        elif k == 'broadcast':
            cur.broadcast += a.split()
        else:
            raise SystemExit('props.txt: ' + line)
    for p in props.values():
        # functions (trait impls) a theory file speaks about
        for th in p.theory:
            for m in re.finditer(r'^//@need (.*)$', open(os.path.join(CON, 'theory', th)).read(), re.M):
                if m.group(1).strip() not in p.fns:
                    p.fns.append(m.group(1).strip())
    return props


def more_fns(messages, prop, ex, cons):
    """Functions with a contract that the extracted text calls but the property does not list yet."""
    add = []
    for f in ex['fns']:
        k = f['key']
        if not k.startswith(prop.ns + ' ') or k not in cons or k in prop.fns or k in add:
            continue
        for m in messages:
            g = re.search(r'no (?:method|function or associated item|associated item) named `(\w+)` found for (?:struct|enum|reference|type|opaque type)? ?`&?(?:mut )?(\w+)', m)
            if g and f['name'] == g.group(1) and f['self_ty'] == g.group(2):
                add.append(k)
            g = re.search(r'cannot find function `(\w+)` in this scope', m)
            if g and f['name'] == g.group(1) and not f['self_ty']:
                add.append(k)
            g = re.search(r'trait bound `([^`]+): ([^`]+)` is not satisfied', m)
            if g and f['trait'] and f['self_ty'] == re.sub(r'<.*', '', g.group(1)) and f['trait'].split('<')[0].strip() in g.group(2):
                add.append(k)
    return list(dict.fromkeys(add))


# ---- types -----------------------------------------------------------------
EQ_PRIM = {'usize', 'u8', 'u32', 'u64', 'i32', 'bool'}


def eqable(ty, types):
    ty = ty.replace(' ', '')
    if ty == 'C' or ty in EQ_PRIM:
        return True
    t = types.get(ty)
    if t and t['kind'] in ('struct', 'enum') and 'PartialEq' in t.get('derives', []):
        fs = t['fields'] if t['kind'] == 'struct' else [f for v in t['variants'] for f in v['fields']]
        return all(eqable(f['ty'], types) for f in fs)
    return False


def eq_of(ty, a, b, spec):
    ty = ty.replace(' ', '')
    if spec:
        if ty in EQ_PRIM:
            return '(%s == %s)' % (a, b)
        return 'PartialEqSpec::eq_spec(&%s, &%s)' % (a, b)
    return '(%s == %s)' % (a, b)


def emit_type(t, types, out):
    k = t['kind']
    name = t['name']
    der = t.get('derives', [])
    copy = 'Copy' in der
    head = '#[derive(Clone, Copy)]\n' if copy else ''
    if k == 'type':
        out.append('pub type %s = %s;' % (name, t['ty']))
        return
    if k == 'const':
        out.append(t['text'])
        return
    if k == 'struct':
        if t['tuple']:
            out.append('%spub struct %s(%s);' % (head, name, ', '.join('pub ' + f['ty'] for f in t['fields'])))
        else:
            out.append('%spub struct %s { %s }' % (head, name, ', '.join('pub %s: %s' % (f['name'], f['ty']) for f in t['fields'])))
    elif k == 'enum':
        vs = []
        for v in t['variants']:
            if v['kind'] == 'unit':
                vs.append(v['name'])
            elif v['kind'] == 'tuple':
                vs.append('%s(%s)' % (v['name'], ', '.join(f['ty'] for f in v['fields'])))
            else:
                vs.append('%s { %s }' % (v['name'], ', '.join('%s: %s' % (f['name'], f['ty']) for f in v['fields'])))
        out.append('%spub enum %s { %s }' % (head, name, ', '.join(vs)))
    else:
        return
    if 'Clone' in der and not copy:
        out.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }' % name)
    if 'PartialEq' in der and eqable(name, types):
        for spec in (True, False):
            if k == 'struct':
                e = ' && '.join(eq_of(f['ty'], 'self.' + f['name'], 'o.' + f['name'], spec) for f in t['fields']) or 'true'
            else:
                arms = []
                for v in t['variants']:
                    n = len(v['fields'])
                    if v['kind'] == 'unit':
                        arms.append('(%s::%s, %s::%s) => true' % (name, v['name'], name, v['name']))
                        continue
                    a = ['a%d' % i for i in range(n)]
                    b = ['b%d' % i for i in range(n)]
                    if v['kind'] == 'tuple':
                        pa = '%s::%s(%s)' % (name, v['name'], ', '.join(a))
                        pb = '%s::%s(%s)' % (name, v['name'], ', '.join(b))
                    else:
                        pa = '%s::%s { %s }' % (name, v['name'], ', '.join('%s: %s' % (f['name'], x) for f, x in zip(v['fields'], a)))
                        pb = '%s::%s { %s }' % (name, v['name'], ', '.join('%s: %s' % (f['name'], x) for f, x in zip(v['fields'], b)))
                    star = '' if spec else '*'
                    e1 = ' && '.join(eq_of(f['ty'], star + x, star + y, spec) for f, x, y in zip(v['fields'], a, b)) or 'true'
                    arms.append('(%s, %s) => %s' % (pa, pb, e1))
                if len(t['variants']) > 1:
                    arms.append('_ => false')
                e = 'match (%s, %s) { %s }' % ('*self' if spec else 'self', '*o' if spec else 'o', ', '.join(arms))
            if spec:
                out.append('impl PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &%s) -> bool { %s } }' % (name, name, e))
            else:
                out.append('impl PartialEq for %s { fn eq(&self, o: &%s) -> bool { %s } }' % (name, name, e))
    if 'PartialOrd' in der and k == 'struct' and len(t['fields']) == 1 and t['fields'][0]['ty'] == 'C':
        f = t['fields'][0]['name']
        out.append('impl PartialOrdSpecImpl for %s { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &%s) -> Option<Ordering> { pcmp(self.%s.v(), o.%s.v()) } }' % (name, name, f, f))
        out.append('impl PartialOrd for %s { fn partial_cmp(&self, o: &%s) -> Option<Ordering> { self.%s.partial_cmp(&o.%s) } }' % (name, name, f, f))


# ---- functions -------------------------------------------------------------
class Lost(Exception):
    pass


def sub_words(text, mp):
    if not mp or not text:
        return text
    return re.sub(r'\b(%s)\b' % '|'.join(re.escape(k) for k in mp), lambda m: mp[m.group(1)], text)


def local_map(f, base):
    """Old name -> new name, when only names of parameters or locals changed."""
    mp = {}
    if not base:
        return mp
    op = [p for p in base['params']]
    np_ = [p['pat'] for p in f['params']]
    if len(op) == len(np_):
        for a, b in zip(op, np_):
            a, b = a.replace('mut ', ''), b.replace('mut ', '')
            if a != b and re.fullmatch(r'\w+', a) and re.fullmatch(r'\w+', b):
                mp[a] = b
    if len(base['lets']) == len(f['lets']):
        for a, b in zip(base['lets'], f['lets']):
            if a != b and a not in mp:
                mp[a] = b
    # names bound anywhere (loop variables, match arms, closures)
    old, new = base.get('binds', []), f.get('binds', [])
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if tag == 'replace' and i2 - i1 == j2 - j1:
            for a, b in zip(old[i1:i2], new[j1:j2]):
                if a not in mp and a not in new and b not in old:
                    mp[a] = b
    return mp


def align(old, new):
    """Number in the source the contract was written against -> number now, for
    blocks or returns known by their text. Unmatched ones pair up in order where
    as many disappeared as appeared."""
    mp = {}
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if tag == 'equal' or i2 - i1 == j2 - j1:
            for i, j in zip(range(i1, i2), range(j1, j2)):
                mp[i + 1] = j + 1
    return mp


def emit_fn(f, c, base, notes, probe=False):
    """Text of one function with its contract. `notes` collects lost anchors."""
    key = f['key']
    if f['unsupported']:
        notes.append(('unsupported', key, '; '.join(f['unsupported'])))
    body = f['body']
    mp = local_map(f, base)
    T = lambda s: sub_words(s, mp)
    loops = f['loops']
    spec = T(c.spec) if c else ''
    used = set()
    at = dict(c.at) if c else {}
    if base:
        for pre, o, n in (('b_', base.get('blocks', []), f['block_sigs']), ('ret_', base.get('rets', []), f['ret_sigs'])):
            if o == n or not any(x.startswith(pre) for x in at):
                continue
            al = align(o, n)
            for x in [x for x in at if re.fullmatch(pre + r'\d+', x)]:
                text, k = at.pop(x), al.get(int(x[len(pre):]))
                at['%s?%s' % (pre, x) if k is None else '@%s%d' % (pre, k)] = text
        at = {x.lstrip('@'): y for x, y in at.items()}
    if c:
        for k in list(c.inv) + list(c.dec):
            if k > len(loops):
                notes.append(('lost', key, 'loop %d of the contract does not exist' % k))
        if base and base['loops'] != loops:
            notes.append(('loops', key, 'loops were %s, now %s' % (base['loops'], loops)))

    def inv(m):
        k = int(m.group(1))
        kind = loops[k - 1]
        a = []
        if not (c and k in c.noauto):
            if kind in ('for', 'for_each', 'map', 'filter', 'filter_map', 'flat_map', 'fold', 'all', 'any'):
                a.append('__i%d <= __s%d.len()' % (k, k))
            if kind == 'map':
                a.append('__out%d.len() == __i%d' % (k, k))
            if kind == 'keys':
                a.append('__out%d.len() == __i%d' % (k, k))
        t = ''
        own = T(c.inv.get(k, '')).strip() if c else ''
        xb = ''
        if own.startswith('@xb'):
            own = own[3:].strip()
            t_kw = '\ninvariant_except_break\n'
        else:
            t_kw = '\ninvariant\n'
        ens = ''
        m2 = re.search(r'^\s*@ensures\b(.*)', own, re.S | re.M)
        if m2:
            ens = m2.group(1)
            own = own[:m2.start()]
        if a or own:
            t += t_kw + ''.join('    %s,\n' % x for x in a)
            if own:
                t += own.rstrip().rstrip(',') + ',\n'
        if ens:
            t += 'ensures\n' + ens + '\n'
        d = T(c.dec.get(k, '')).strip() if c else ''
        if not d and kind in ('for', 'for_each', 'map', 'filter', 'filter_map', 'flat_map', 'fold', 'all', 'any'):
            d = '__s%d.len() - __i%d' % (k, k)
        if d:
            t += 'decreases ' + d + '\n'
        pre = 'pre_%d' % k
        if c and pre in at:
            used.add(pre)
        return t + '{' + (T(at.get(pre, '')) if c else '')

    body = re.sub(r'\{\s*__vm!\(inv_(\d+)\);', inv, body)
    nodec = any(not (c and c.dec.get(i + 1, '').strip()) and k in ('while', 'loop', 'keys') for i, k in enumerate(loops))

    def mark(m):
        n = m.group(1)
        used.add(n)
        if probe and not (c and c.trusted) and (n == 'end' or n.startswith('ret_')):
            return mark1(n) + ' assert(false);'
        return mark1(n)

    def mark1(n):
        if n.startswith('panic_'):
            k = int(n[6:])
            if c and k in c.refuse:
                return 'assert(%s);' % T(c.refuse[k])
            return ''
        t = at.get(n) if c else None
        if t is None and c and mp and n.startswith('let_'):
            nm, cnt = n[4:].rsplit('_', 1)
            for a, b in mp.items():
                if b == nm:
                    t = at.get('let_%s_%s' % (a, cnt))
                    if t is not None:
                        used.add('let_%s_%s' % (a, cnt))
        return T(t) if t else ''

    body = re.sub(r'__vm!\((\w+)\);', mark, body)
    if c and at.get('entry'):
        used.add('entry')
        body = T(c.at['entry']) + body
    if c:
        for n in at:
            if n not in used:
                notes.append(('lost', key, 'anchor %s' % n))
        for k in c.refuse:
            if k > f['panics']:
                # a refusal that no longer exists: the postcondition decides
                notes.append(('refusal-gone', key, 'panic %d' % k))
    body = re.sub(r'__vpanic_(\d+)\(\)', lambda m: 'vrefuse()' if c and int(m.group(1)) in c.refuse else 'vpanic()', body)
    body = re.sub(r'^\s*\n', '', body, flags=re.M)
    if c:
        for a, b in c.rename:
            body = re.sub(r'\b%s\b' % re.escape(a), b, body)
        for a, b in c.subst:
            body = body.replace(a, b)
    if c and c.use and not c.trusted:
        body = ''.join('broadcast use %s;\n' % u for u in c.use) + body
    params = ([f['receiver']] if f['receiver'] else []) + ['%s: %s' % (p['pat'], p['ty']) for p in f['params']]
    ret = ''
    if f['ret']:
        ret = ' -> (%s: %s)' % (c.ret if c else 'ret', f['ret'])
    gen = '<%s>' % f['generics'] if f['generics'] else ''
    attrs = '#[verifier::loop_isolation(false)]\n' if loops else ''
    if nodec and loops:
        attrs += '#[verifier::exec_allows_no_decreases_clause]\n'
    if c and c.attr:
        attrs += c.attr
    if c and c.trusted:
        attrs = '#[verifier::external_body]\n'
        body = 'unimplemented!()'
    in_impl = bool(f['self_ty'])
    is_trait = bool(f['trait']) and not (c and c.inherent)
    vis = '' if is_trait or f['in_trait'] else 'pub '
    where = (' ' + f['where']) if f['where'] else ''
    text = '%s%sfn %s%s(%s)%s%s\n%s{\n%s\n}' % (attrs, vis, f['name'], gen, ', '.join(params), ret, where, spec, body)
    return text


def emit_impl(f, text, c):
    if not f['self_ty']:
        return text
    if f['in_trait']:
        # default method of the Coordinate trait
        return 'impl C {\n%s\n}' % text.replace('fn ', 'pub fn ', 1) if f['self_ty'] == 'Coordinate' else text
    g = '<%s>' % f['impl_generics'] if f['impl_generics'] else ''
    w = (' ' + f['impl_where']) if f['impl_where'] else ''
    sty = f['self_full']
    if f['trait'] and not (c and c.inherent):
        assoc = ''.join('type %s = %s;\n' % (a['name'], a['ty']) for a in f['assoc'])
        impl = c.impl if c else ''
        return 'impl%s %s for %s%s {\n%s%s%s\n}' % (g, f['trait'], sty, w, assoc, impl, text)
    return 'impl%s %s%s {\n%s\n}' % (g, sty, w, text)


ROOT_THEORY = ('coll.rs', 'env.rs', 'lin.rs', 'ints.rs', 'hil.rs')


def theory_mod(th, broadcast):
    """A theory file as a module of its own: modules are verified in parallel."""
    t = open(os.path.join(CON, 'theory', th)).read()
    if th in ROOT_THEORY:
        return t
    t = re.sub(r'^(proof fn|open spec fn|spec fn|uninterp spec fn)', r'pub \1', t, flags=re.M)
    m = 'th_' + th[:-3]
    return 'pub mod %s {\nuse super::*;\n%s%s\n}\npub use %s::*;\n' % (m, ''.join('broadcast use %s;\n' % b for b in broadcast), t, m)


def build(prop, ex, cons, base, probe=False):
    """Returns (text, info). info: line map, notes, functions."""
    notes = []
    if prop.assume:
        cons = dict(cons)
        for k, spec in prop.assume.items():
            cons[k] = Contract(k)
            cons[k].spec = '    ' + spec + '\n'
            cons[k].trusted = 'assumed in this property'
    types = {t['name']: t for t in ex['types'] if t['ns'] == prop.ns}
    fns = {f['key']: f for f in ex['fns']}
    out = [HEADER]
    for b in prop.broadcast:
        out.append('broadcast use %s;' % b)
    out.append(open(os.path.join(CON, 'theory', 'prelude.rs')).read())
    tout = []
    for t in ex['types']:
        if t['ns'] != prop.ns or t['kind'] in ('trait', None):
            continue
        if t['name'] in ('FloatIsNan',):
            continue
        emit_type(t, types, tout)
    out += tout
    for th in prop.theory:
        out.append('// ==== theory/%s' % th)
        out.append(theory_mod(th, prop.broadcast))
    included = []
    spans = []
    probed = []
    axp = (0, 0)
    if probe:
        groups = [b for b in re.findall(r'broadcast group (\w+)', '\n'.join(out))]
        cur = '\n'.join(out)
        b = 'proof fn __axiom_probe()\n    requires exact_arith()\n{\n%s    assert(false);\n}' % ''.join('    broadcast use %s;\n' % g for g in groups)
        axp = (cur.count('\n') + 2, cur.count('\n') + 2 + b.count('\n'))
        out.append(b)
    for key in prop.fns:
        f = fns.get(key)
        c = cons.get(key)
        if f is None:
            notes.append(('missing', key, 'function is not in the source'))
            continue
        if c is None:
            notes.append(('nocontract', key, ''))
        n0 = len(notes)
        monos = c.mono if c and c.mono else [None]
        for mono in monos:
            text = emit_fn(f, c, base.get(key), notes, probe)
            extra = c.extra if c else ''
            if mono:
                g, ty = mono.split('=')
                text = re.sub(r'\b%s::zero\(\)' % g, '0', text)
                text = re.sub(r'\b%s::one\(\)' % g, '1', text)
                text = re.sub(r'\b%s\b' % g, ty, text)
                text = re.sub(r'fn (\w+)<[^>]*>', r'fn \1', text, 1)
                if mono != monos[0]:
                    text = re.sub(r'fn (\w+)\(', r'fn \1_%s(' % ty, text, 1)
                    for a in monos:
                        pass
                    text = re.sub(r'\bdiv_ceil\(', 'div_ceil_%s(' % ty, text) if f['name'] != 'div_ceil' else text
                notes[n0:] = list(dict.fromkeys(notes[n0:]))
            block = (extra + '\n' if extra else '') + emit_impl(f, text, c)
            cur = '\n'.join(out)
            line0 = cur.count('\n') + 2
            out.append('// ==== %s  (%s:%d)' % (key, f['file'], f['line']))
            out.append(block)
            spans.append((line0, line0 + block.count('\n') + 1, key))
        included.append(key)
        if not (c and c.trusted) and re.search(r'__vm!\((end|ret_\d+)\)', f['body']):
            probed.append(key)
    out.append('} // verus!\nfn main() {}\n')
    return '\n'.join(out), {'notes': notes, 'spans': spans, 'fns': included, 'probed': probed, 'axiom_probe': axp}
