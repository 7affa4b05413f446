#!/usr/bin/env python3
"""Assembles the Verus file of a component from the functions extracted from /repo/src and the contracts.

Contract files are /verif/contracts/<component>.vc.  Directives (a line starting with '@'):

  @types A B ..        types taken from /repo (text extracted mechanically)
  @opaque A B ..       type names that are declared opaque (no content known)
  @eq A B ..           types whose derived PartialEq is taken as structural equality (derive list is checked)
  @consts X Y ..       consts taken from /repo
  @broadcast G ..      lemma groups in use everywhere
  @use PATH            use declaration
  @spec                raw specification text: spec functions, lemmas
  @fn ID               contract of an extracted function which is verified here
  @serde TYPE [ATTRS]  TYPE derives Serialize and has exactly these serde attributes
  @deserde TYPE [ATTRS]  the same for Deserialize
  @only PREFIX         every function of /repo whose name starts so is one with a contract here
  @derive TYPE TRAIT…  TYPE derives these traits (their meaning is the derived one)
  @order TYPE SPEC     the comparison #[derive(PartialOrd)] expands to for this struct (fields in declared order) is SPEC
  @import COMP…        everything of the named components, their functions as with @extern
  @extern ID           contract of a function verified in another component (its body is not looked at here)
  @trusted ID          contract of a function of /repo which is assumed (reported as an assumption)
      @requires @ensures      clauses, each starting with a line '[tags] ...'
      @begin @finish          ghost statements at the start and the end of the body
      @opts TEXT              attributes of the function
      @acc N TYPE             type of the accumulator of collecting loop N
      @type NAME TYPE         type annotation for a local
      @loop N                 loop number N (in order of appearance)
          @inv @lens @pre @head @tail @post     invariant clauses, what holds after the loop (loops with break); ghost statements
          @decreases EXPR
  @macro NAME          lines inserted by '%NAME ARG', with $$ replaced by ARG
  [tags] is '[C01 C02]' or '[*]'.

In contract text  $itN $xN $sN $accN $accaN $accbN $yN  stand for the variables the desugaring introduced
for loop N: the iteration snapshot, the current item, the (ghost) sequence of all items, the accumulator(s).
"""
import copy, json, os, re, signal, subprocess, sys, difflib

V = os.path.dirname(os.path.abspath(__file__))
SRC = '/repo/src'
EXTRACT = f'{V}/extract/target/release/extract'


class Lost(Exception):
    """The contract can no longer be attached to the code (anchor lost)."""


class Clause:
    def __init__(self, tags, text, where):
        self.tags, self.text, self.where = tags, text, where

    def on(self, prop):
        return prop is None or '*' in self.tags or prop in self.tags


class FnC:
    def __init__(self, fid, mode):
        self.id, self.mode = fid, mode
        self.requires, self.ensures, self.begin, self.finish = [], [], [], []
        self.loops, self.opts, self.acc, self.type = {}, [], {}, {}


class LoopC:
    def __init__(self):
        self.inv, self.pre, self.head, self.tail, self.post, self.lens, self.decreases = [], [], [], [], [], [], None


def respell(text, names):
    """specification functions called like a local of the code get another name"""
    for n in names:
        text = re.sub(rf'(?<![\w.$]){n}(?=\s*(\(|::<))|(?<=spec fn ){n}\b|(?<=proof fn ){n}\b', f'{n}_spec_', text)
    return text


def parse(path, comp, imported=False):
    if path in comp.setdefault('seen', set()):
        return comp
    comp['seen'].add(path)
    comp.setdefault('types', []), comp.setdefault('opaque', []), comp.setdefault('consts', [])
    comp.setdefault('use', []), comp.setdefault('spec', []), comp.setdefault('fns', []), comp.setdefault('eq', [])
    comp.setdefault('include', []), comp.setdefault('notes', []), comp.setdefault('broadcast', [])
    fn = loop = None
    sect = None
    base = os.path.basename(path)
    macros = comp.setdefault('macros', {})
    src, cur = [], None
    for no, line in enumerate(respell(open(path).read(), comp.get('respell', ())).split('\n'), 1):
        m = re.match(r'@(include|import) (.*)', line)
        if m:
            for b in m.group(2).split():
                parse(f'{V}/contracts/{b}.vc', comp, imported or m.group(1) == 'import')
            continue
        m = re.match(r'@macro (\w+)', line)
        if m:
            cur = macros.setdefault(m.group(1), [])
        elif line.startswith('@'):
            cur = None
        m2 = re.match(r'\s*%(\w+) (.*)$', line)
        if m2:
            src += [(no, l.replace('$$', m2.group(2))) for l in macros[m2.group(1)]]
        elif m:
            pass
        elif cur is not None:
            cur.append(line)
        else:
            src.append((no, line))
    for no, line in src:
        s = line.strip()
        if s.startswith('@'):
            w = s.split(None, 1)
            d, a = w[0][1:], (w[1] if len(w) > 1 else '')
            sect = None
            if d in ('types', 'opaque', 'consts', 'eq', 'broadcast'):
                comp[d] += [x for x in a.split() if x not in comp[d]]
            elif d in ('serde', 'deserde', 'derive', 'only', 'order'):
                comp.setdefault(d, []).append(a)
            elif d == 'use':
                comp['use'].append(a)
            elif d == 'spec':
                sect, fn, loop = comp['spec'], None, None
            elif d == 'note':
                comp['notes'].append(a)
            elif d in ('fn', 'extern', 'trusted'):
                fn, loop = FnC(a, 'extern' if imported and d == 'fn' else d), None
                comp['fns'].append(fn)
            elif d in ('requires', 'ensures', 'begin', 'finish'):
                loop = None
                sect = getattr(fn, d)
            elif d == 'opts':
                fn.opts.append(a)
            elif d == 'acc':
                n, t = a.split(None, 1)
                fn.acc[n] = t
            elif d == 'type':
                n, t = a.split(None, 1)
                fn.type[n] = t
            elif d == 'loop':
                loop = fn.loops.setdefault(int(a), LoopC())
            elif d in ('inv', 'pre', 'head', 'tail', 'post', 'lens'):
                sect = getattr(loop, d)
            elif d == 'decreases':
                loop.decreases = a
            else:
                raise SystemExit(f'{path}:{no}: unknown directive @{d}')
            continue
        if sect is None:
            if s and not s.startswith('#'):
                raise SystemExit(f'{path}:{no}: text outside a section: {s}')
            continue
        m = re.match(r'\s*\[([C0-9 *]+)\]\s?(.*)$', line)
        if m:
            sect.append(Clause(m.group(1).split(), m.group(2), f'{base}:{no}'))
        elif not sect:
            if s:
                sect.append(Clause(['*'], line, f'{base}:{no}'))
        else:
            sect[-1].text += '\n' + line
    return comp


def over(src):
    """what a loop iterates over, however that is spelled"""
    return re.sub(r'^& (mut )?|\s*\. (iter|into_iter) \( \)$', '', src.strip())


def patterns():
    """regular expressions the contracts speak of: those with groups or replacement, those only asked for a match"""
    r = ([], [])
    for p in sorted(os.listdir(f'{V}/contracts')):
        for kind, t in re.findall(r're_(groups|replace|match)\("((?:[^"\\]|\\.)*)"@', open(f'{V}/contracts/{p}').read()):
            r[kind == 'match'].append(t.replace('\\\\', '\\'))
    return r


def run_extract(request, src=SRC):
    request['regexes'], request['asked'] = patterns()
    p = subprocess.run([EXTRACT, src], input=json.dumps(request), capture_output=True, text=True)
    if p.returncode != 0:
        raise Lost('extractor: ' + p.stderr.strip()[-400:])
    return json.loads(p.stdout)


def used_props(comp):
    r = set()
    for f in comp['fns']:
        if f.mode == 'fn':
            for c in f.ensures:
                r |= set(c.tags)
    return r


class Gen:
    def __init__(self, name, prop, canary=False, src=SRC, baseline=None, only=None, guess=True, alt=0, skip=()):
        self.name, self.prop, self.canary = name, prop, canary
        self.comp = parse(f'{V}/contracts/{name}.vc', {})
        self.lines = []          # generated text lines
        self.map = {}            # line number -> description of the contract clause there
        self.owner = {}          # line number -> function id
        self.canaries = []
        self.rules, self.dropped, self.inlined = {}, {}, []
        self.clauses = 0
        self.only = only
        self.guess = guess       # try invariants of counters which the contracts do not know
        self.guesses = 0
        self.lost = []
        self.renamed = []        # functions in which a local seems to have another name than in the contracts
        self.reordered = []      # functions whose loops stand in another order than the contracts'
        fns = [f for f in self.comp['fns'] if f.mode == 'fn']
        ext = [f for f in self.comp['fns'] if f.mode != 'fn']
        self.x = run_extract({'fns': [f.id for f in self.comp['fns']], 'external': [], 'types': self.comp['types'],
                              'consts': self.comp['consts'], 'end_markers': [f.id for f in fns]}, src)
        code = self.speccode()
        own = set(re.findall(r'\b(?:spec|proof) fn (\w+)', code)) - set(re.findall(r'\bfn (\w+)\s*(?:<[^>]*>)?\(\s*&?(?:mut )?self', code))
        used = {n for f in fns for n in self.x['fns'].get(f.id, {}).get('raw_locals', []) + self.x['fns'].get(f.id, {}).get('params', [])}
        if own & used:
            self.comp = parse(f'{V}/contracts/{name}.vc', {'respell': own & used})
        self.baseline = baseline if baseline is not None else load_baseline()
        self.alternatives = 0    # clauses written in two ways (A ||| B)
        self.skipped = []
        for f in self.comp['fns']:
            for cs in [f.begin, f.finish] + [getattr(lc, k) for lc in f.loops.values() for k in ('inv', 'pre', 'head', 'tail', 'post', 'lens')]:
                for c in list(cs):
                    if c.where in skip and ' ||| ' in c.text and c.where + '#2' not in skip:
                        self.skipped.append(c.where)    # what is lost here may be there in the other way
                        self.alternatives += 1
                        c.text = c.text.split(' ||| ')[1]
                    elif c.where in skip:
                        self.skipped += [w for w in (c.where, c.where + '#2') if w in skip]
                        cs.remove(c)
                    elif ' ||| ' in c.text:
                        self.alternatives += 1
                        c.text = c.text.split(' ||| ')[alt]
        self.build()

    # -- output
    def put(self, text, desc=None, owner=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if desc:
                self.map[len(self.lines)] = desc
            if owner:
                self.owner[len(self.lines)] = owner

    def build(self):
        self.put(open(f'{V}/contracts/prelude.rs').read())
        self.put('broadcast use {' + ', '.join(['vp::group_prelude'] + self.comp['broadcast']) + '};')
        for t in self.comp['opaque']:
            m = re.match(r'(\w+)', t)
            self.put(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}')
            self.put(f'impl Clone for {t} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}')
        for u in self.comp['use']:
            self.put(f'use {u};')
        for t in self.comp['types']:
            self.emit_type(t)
        for d, tr, how in (('serde', 'Serialize', 'serialized'), ('deserde', 'Deserialize', 'read')):
            for a in self.comp.get(d, []):
                n, _, want = a.partition(' ')
                t = self.x['types'].get(n, {})
                if tr not in t.get('derives', []) or '; '.join(t['serde']) != want:
                    raise Lost(f'{n} is no longer {how} as derived')
        for a in self.comp.get('only', []):
            more = [f for f in self.x['all_fns'] if f.startswith(a) and f not in [g.id for g in self.comp['fns']]]
            if more:
                raise Lost(f'functions without a contract: {more}')
        for a in self.comp.get('derive', []):
            n, *want = a.split()
            t = self.x['types'].get(n, {})
            if not set(want) <= set(t.get('derives', [])):
                raise Lost(f'{n} no longer derives {" ".join(want)}')
        for c in self.comp['consts']:
            k = self.x['consts'].get(c)
            if not k or k.get('missing'):
                raise Lost(f'const {c} is gone')
            self.put(k['text'])
        for c in self.comp['spec']:
            if c.on(self.prop):
                self.put(c.text, f'{c.where}: specification')
        for a in self.comp.get('order', []):
            n, spec = a.split()
            t = self.x['types'].get(n, {})
            if 'PartialOrd' not in t.get('derives', []) or not all(t.get('fields') or [None]) or not re.search(r'\bstruct\b', t['text']):
                raise Lost(f'{n} no longer derives PartialOrd')
            steps = ''.join(f'let o = a.{f}.vpcmp(&b.{f}); if !is_equal(&o) {{ return o; }} ' for f in t['fields'][:-1])
            self.put(f'fn derived_order_{n}(a: &{n}, b: &{n}) -> (ret: Option<Ordering>) ensures ret == {spec}(*a, *b) {{ {steps}a.{t["fields"][-1]}.vpcmp(&b.{t["fields"][-1]}) }}', f'{t["file"]}::{n}, derived order')
        for f in self.comp['fns']:
            self.emit_fn(f)
        self.put('fn main() {}\n} // verus!')

    def emit_type(self, name):
        t = self.x['types'].get(name)
        if not t or t.get('missing'):
            raise Lost(f'type {name} is gone')
        self.put(t['text'])
        d = t['derives']
        g = t.get('generics') or ''
        gi = g
        ga = re.sub(r':[^,>]*', '', g) if g else ''
        if 'Clone' in d:
            self.put(f'impl {gi} Clone for {name} {ga} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}')
        if name in self.comp['eq'] or ('PartialEq' in d and not g and self.plain(name, set()) and f'PartialEqSpecImpl for {name} ' not in self.speccode()):
            if 'PartialEq' not in d:
                raise Lost(f'{name} no longer derives PartialEq')
            self.put(f'impl {gi} PartialEq for {name} {ga} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> bool {{ unimplemented!() }} }}\n'
                     f'impl {gi} vstd::std_specs::cmp::PartialEqSpecImpl for {name} {ga} {{ open spec fn obeys_eq_spec() -> bool {{ true }}\n'
                     f'  open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}')
        elif 'PartialEq' in d and not g and re.search(r'\benum\b', t['text']) and f'PartialEqSpecImpl for {name} ' not in self.speccode():
            # of an enum, at least: a variant without data equals itself and nothing else
            body = t['text'][t['text'].find('{') + 1:]
            units, depth = [], 0
            for m in re.finditer(r'[({]|[)}]|\b[A-Z]\w*\b(?=\s*(.))', body):
                w = m.group(0)
                if w in '({':
                    depth += 1
                elif w in ')}':
                    depth -= 1
                elif depth == 0 and m.group(1) in ',}':
                    units.append(w)
            if units:
                unit = lambda x: '(' + ' || '.join(f'{x} is {u}' for u in units) + ')'
                self.put(f'pub uninterp spec fn eq_{name}(a: {name}, b: {name}) -> bool;\n'
                         f'impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> bool {{ unimplemented!() }} }}\n'
                         f'impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }}\n'
                         f'  open spec fn eq_spec(&self, other: &Self) -> bool {{ if {unit("*self")} || {unit("*other")} {{ *self == *other }} else {{ eq_{name}(*self, *other) }} }} }}')

    def counters(self, body, u, lc):
        """Locals that start from a number right before loop u and are counted up once, in it."""
        at = body.find(f'__vcinv ! ( {u} ) ;')
        depth, end = 1, at
        while end < len(body) and depth:
            depth += {'{': 1, '}': -1}.get(body[end], 0)
            end += 1
        r = []
        for m in re.finditer(r'let mut (\w+) (?:: usize )?= (\d+)(?:_?usize)? ;', body[:at]):
            v = m.group(1)
            ups = [x.start() for x in re.finditer(rf'(?<![\w.]){v} \+= 1 ;', body)]
            sets = re.findall(rf'(?<![\w.]){v} (?:[-+*/%&|^]?=|<<=|>>=) |& mut {v}\b', body)
            if len(ups) == 1 and len(sets) == 2 and at < ups[0] < end and not any(re.search(rf'\b{v}\b', c.text) for c in lc.inv):
                if '__vcinv' not in body[at + 8:ups[0]]:
                    r.append((v, m.group(2)))
        return r

    def speccode(self):
        return ' '.join(c.text for c in self.comp['spec'])

    def plain(self, name, seen):
        """The derived equality of the type is structural: nothing in it has an equality of its own (paths)."""
        if name in seen:
            return True
        seen.add(name)
        t = self.x['types'].get(name)
        if not t or t.get('missing') or 'PartialEq' not in t['derives']:
            return False
        text = t['text']
        enum = re.search(r'\benum\b', text)
        body = text[min([i for i in (text.find('{'), text.find('(')) if i >= 0], default=0) + 1:]
        depth = 0
        for m in re.finditer(r'[({]|[)}]|\b[A-Z]\w*\b', body):
            w = m.group(0)
            if w in '({':
                depth += 1
            elif w in ')}':
                depth -= 1
            if w in '({)}' or (enum and depth == 0):
                continue
            if w not in ('String', 'Option', 'Vec', 'Some', 'None') and not self.plain(w, seen):
                return False
        return True

    def rename(self, f, x, text):
        for a, b in self.renames.items():
            text = re.sub(rf'(?<![\w.$]){re.escape(a)}(?!\w)', b, text)
        return text

    def vars(self, text, nmap, accmap):
        def sub(m):
            k, n = m.group(1), int(m.group(2))
            if n not in nmap:
                raise Lost(f'loop {n} is gone')
            u = nmap[n]
            if k == 'it': return f'__it_{u}'
            if k == 'x': return f'__x_{u}'
            if k == 's': return f'__s_{u}'
            if k in ('acc', 'acca', 'accb'):
                if n not in accmap:
                    raise Lost(f'accumulator of loop {n} is gone')
                return accmap[n] if not accmap[n].isdigit() else f'__{k}_{accmap[n]}'
            raise SystemExit('unknown $' + k)
        return re.sub(r'\$(it|x|s|acca|accb|acc)(\d+)\b', sub, text)

    def own_acc(self, f, body, nmap, accmap):
        """Where the contracts speak of the accumulator of an iterator chain and the code has a loop instead:
        the variable which the loop fills, if that can be told (dropped again if the proof fails)."""
        text = ' '.join(c.text for lc in f.loops.values() for cs in (lc.inv, lc.pre, lc.head, lc.tail, lc.post) for c in cs)
        for n in sorted({int(n) for n in re.findall(r'\$acc(\d+)\b', text)}):
            if n in accmap or n not in nmap:
                continue
            at = body.find(f'__vcinv ! ( {nmap[n]} ) ;')
            depth, end = 1, at
            while end < len(body) and depth:
                depth += {'{': 1, '}': -1}.get(body[end], 0)
                end += 1
            inside = body[at:end]
            names = [m.group(1) for m in re.finditer(r'let mut ((?!__)\w+)\b', body[:at])]
            names = [v for v in names if re.search(rf'(?<![\w.] )(?<![\w.])\b{v} (\. \w+ \(|= |\+= )|& mut {v}\b', inside)]
            if names:
                accmap[n] = names[-1]
                self.guesses += 1

    def emit_fn(self, f):
        x = self.x['fns'].get(f.id)
        if not x or x.get('missing'):
            if f.mode == 'trusted' or f.mode == 'extern':
                raise Lost(f'function {f.id} is gone')
            raise Lost(f'function {f.id} is gone')
        # locals renamed since the contracts were written
        self.renames = {}
        base = self.baseline.get(f.id)
        names = x['params'] + x['raw_locals']
        if base:
            old, new = base['names'], names
            if old != new:
                sm = difflib.SequenceMatcher(a=old, b=new, autojunk=False)
                for op, a1, a2, b1, b2 in sm.get_opcodes():
                    if op == 'replace' and a2 - a1 == b2 - b1:
                        for p, q in zip(old[a1:a2], new[b1:b2]):
                            if p not in new:
                                self.renames[p] = q
        if self.renames:
            self.renamed.append(f.id)
        sig_in = ', '.join(x['inputs'])
        out = x['output']
        gen = ''
        if x['generics']:
            gen = '<' + ', '.join(x['generics']) + '>'
        where = (' where ' + ', '.join(x['where'])) if x['where'] else ''
        self_ty = x['self_ty']
        attrs = ['#[verifier::loop_isolation(false)]'] if f.mode == 'fn' else ['#[verifier::external_body]']
        attrs += f.opts
        if self_ty:
            self.put(f'impl {x["impl_generics"]} {self_ty} {{')
        for a in attrs:
            self.put(a)
        name = x['mangled']
        ret = f' -> (ret: {out})' if out else ''
        self.put(f'fn {name}{gen}({sig_in}){ret}{where}', f'{f.id}', f.id)

        def clauses(kind, cs):
            on = [c for c in cs if c.on(self.prop)]
            if on:
                self.put(kind)
            for i, c in enumerate(on, 1):
                if f.mode == 'fn':
                    self.clauses += 1
                t = c.text.strip().rstrip(',')
                self.put('    ' + self.rename(f, x, t) + ',', f'{kind} {c.where} of {f.id}: {" ".join(t.split())[:160]}', f.id)
        clauses('requires', f.requires)
        clauses('ensures', f.ensures)
        if f.mode != 'fn':
            self.put('{ unimplemented!() }')
            if self_ty:
                self.put('}')
            return
        if x['unsupported']:
            raise Lost(f'{f.id}: not in the verified subset: {x["unsupported"]}')
        for k, v in x['rules'].items():
            self.rules[k] = self.rules.get(k, 0) + v
        for k, v in x['dropped'].items():
            self.dropped[k] = self.dropped.get(k, 0) + v
        self.inlined += x['inlined']
        # loops in order of appearance
        body = x['body']
        order = [int(u) for u in re.findall(r'__vcinv ! \( (\d+) \) ;', body)]
        nmap = {i + 1: u for i, u in enumerate(order)}
        kinds = {l['uid']: l for l in x['loops']}
        if base and len(base['over']) == len(order):
            # the same loops in another order: each takes its contract along
            old = [over(self.rename(f, x, o)) for o in base['over']]
            new = [over(kinds[u]['src']) for u in order]
            if old != new and sorted(old) == sorted(new):
                self.reordered.append(f.id)
                left = list(range(len(new)))
                for i, o in enumerate(old):
                    j = next(j for j in left if new[j] == o)
                    left.remove(j)
                    nmap[i + 1] = order[j]
        if f.loops and max(f.loops) > len(order):
            raise Lost(f'{f.id}: loop {max(f.loops)} is gone')
        if base and len(base['loops']) != len(order):
            raise Lost(f'{f.id}: has {len(order)} loops where the contract was written for {len(base["loops"])}')
        if base:
            for n, u in nmap.items():
                i = n - 1
                if base['loops'][i] != kinds[u]['kind']:
                    raise Lost(f'{f.id}: loop {i+1} changed from {base["loops"][i]} to {kinds[u]["kind"]}')
        accmap = {}
        for j, v in acc_of(body, order).items():
            accmap.setdefault(next(n for n, u in nmap.items() if u == order[j]), v)
        # loops which stop at the first hit (any, all, find, position) where the contract was written for one that
        # runs to its end: nothing was hit so far, and what holds after the last round only holds without a hit
        stops = {}
        for n, v in accmap.items():
            if base and 'stops' in base and not base['stops'][n - 1] and stop_of(body, v):
                stops[nmap[n]] = f'!__acc_{v}' if stop_of(body, v) == 'any' else f'__acc_{v} is None'
        if self.guess:
            self.own_acc(f, body, nmap, accmap)
        for n, t in f.acc.items():
            if isinstance(accmap.get(int(n)), int) or str(accmap.get(int(n), '')).isdigit():
                v = accmap[int(n)]
                ts = t.split(' | ')
                body = body.replace(f'__VCACC < {v}usize >', ts[0]).replace(f'__VCACCA < {v}usize >', ts[0])
                body = body.replace(f'__VCACCB < {v}usize >', ts[-1])
                body = re.sub(rf'let mut __acc_{v} : \w+ < _ > = ', lambda _: f'let mut __acc_{v} : {ts[0]} = ', body)
                body = body.replace(f'let mut __acc_{v} = ', f'let mut __acc_{v} : {ts[0]} = ')
        body = re.sub(r'__VCACC[AB]? < \d+usize >', '_', body)
        for n, t in f.type.items():
            n = self.renames.get(n, n)
            body, k = re.subn(rf'\blet (mut )?{n} = ', lambda m: f'let {m.group(1) or ""}{n} : {t} = ', body, count=1)

        # invariants move in front of the body's brace
        ghost = {}
        for n, u in nmap.items():
            lc = f.loops.get(n, LoopC())
            isfor = kinds[u]['kind'] in ('for',)
            ghost[u] = (n, lc, isfor)
        parts = re.split(r'(\{\s*__vcinv ! \( \d+ \) ;|__vcg ! \( "[^"]*" \) ;)', body)

        def stm(cs, what):
            for c in cs:
                if c.on(self.prop) and c.text.strip():
                    self.put(self.vars(self.rename(f, x, c.text), nmap, accmap), f'{what} {c.where} of {f.id}: {" ".join(c.text.split())[:160]}', f.id)

        def canary(where):
            if self.canary:
                k = len(self.canaries)
                self.canaries.append(f'{f.id}: {where}')
                self.put(f'proof {{ if vp::arb({k}) {{ assert(false); }} }}', f'CANARY {k}', f.id)

        first = True
        for p in parts:
            m = re.match(r'\{\s*__vcinv ! \( (\d+) \) ;', p)
            g = re.match(r'__vcg ! \( "([^"]*)" \) ;', p)
            if m:
                u = int(m.group(1))
                n, lc, isfor = ghost[u]
                self.put('invariant', None, f.id)
                if isfor:
                    self.put(f'    0 <= __it_{u}.pos() <= __it_{u}.seq().len(), __it_{u}.seq() == __s_{u},', f'loop {n} of {f.id}: iteration bounds', f.id)
                    if self.guess:
                        for v, k in self.counters(body, u, lc):
                            self.guesses += 1
                            self.put(f'    {v} == {k} + __it_{u}.pos(),', f'guessed invariant of loop {n} of {f.id}: {v} counts', f.id)
                if u in stops:
                    self.put(f'    {stops[u]},', f'loop {n} of {f.id}: not stopped yet', f.id)
                for c in lc.inv:
                    if c.on(self.prop):
                        self.clauses += 1
                        t = c.text.strip().rstrip(',')
                        self.put('    ' + self.vars(self.rename(f, x, t), nmap, accmap) + ',', f'invariant {c.where} of loop {n} of {f.id}: {" ".join(t.split())[:160]}', f.id)
                lens = [c for c in lc.lens if c.on(self.prop)]
                if lens:
                    self.put('ensures', None, f.id)
                for c in lens:
                    self.clauses += 1
                    t = c.text.strip().rstrip(',')
                    self.put('    ' + self.vars(self.rename(f, x, t), nmap, accmap) + ',', f'postcondition {c.where} of loop {n} of {f.id}: {" ".join(t.split())[:160]}', f.id)
                if isfor and lc.decreases is None:
                    self.put(f'decreases __s_{u}.len() - __it_{u}.pos()', f'termination of loop {n} of {f.id}', f.id)
                elif lc.decreases:
                    self.put('decreases ' + self.vars(self.rename(f, x, lc.decreases), nmap, accmap), f'termination of loop {n} of {f.id}', f.id)
                self.put('{', None, f.id)
                if not isfor:
                    stm(lc.head, f'ghost code at the head of loop {n}')
                    canary(f'head of loop {n}')
            elif g:
                k = g.group(1)
                if k == 'end':
                    stm(f.finish, 'ghost code at the end')
                    canary('end')
                    if self.canary:
                        self.put('proof { assume(false); }', None, f.id)    # the postconditions are not the canaries' matter
                    continue
                u, wh = k.split('.')
                u = int(u)
                n, lc, isfor = ghost[u]
                if wh == 'pre' and isfor:
                    self.put(f'let ghost __s_{u} = __it_{u}.seq();', None, f.id)
                if wh == 'head' and not isfor:
                    continue
                if wh == 'post' and u in stops and lc.post:
                    for c in lc.post:
                        t = c.text.strip()
                        c = copy.copy(c)
                        if re.match(r'proof \{', t) and t.endswith('}') and t.count('proof {') == 1:
                            c.text = f'proof {{ if {stops[u]} {{' + t[len('proof {'):] + ' }'
                        elif 'proof {' not in t and 'let ghost' not in t:
                            c.text = f'proof {{ if {stops[u]} {{ {t} }} }}'
                        stm([c], f'ghost code (post) of loop {n}')
                    continue
                stm(getattr(lc, wh), f'ghost code ({wh}) of loop {n}')
                if wh == 'head':
                    canary(f'head of loop {n}')
            else:
                if first:
                    i = p.index('{')
                    self.put(p[:i + 1], f'body of {f.id}', f.id)
                    if '""' in body:
                        self.put('proof { reveal_strlit(""); }', None, f.id)
                    stm(f.begin, 'ghost code at the start')
                    canary('start')
                    p = p[i + 1:]
                    first = False
                self.put(p, f'body of {f.id}', f.id)
        if self_ty:
            self.put('}')

    def text(self):
        return '\n'.join(self.lines) + '\n'


def load_baseline():
    try:
        return json.load(open(f'{V}/contracts/baseline.json'))
    except FileNotFoundError:
        return {}


def stop_of(body, v):
    if re.search(rf"__acc_{v} = true ;\s+break 'l{v}\b", body):
        return 'any'
    if re.search(rf"__acc_{v} = Some \( [^;]*\) ;\s+break 'l{v}\b", body):
        return 'find'
    return ''


def acc_of(body, order):
    """-> {index of the loop: uid of its accumulator}"""
    r = {}
    for m in re.finditer(r'let mut __acca?_(\d+)\b', body):
        rest = re.search(r'__vcinv ! \( (\d+) \) ;', body[m.end():])
        if rest:
            r.setdefault(order.index(int(rest.group(1))), m.group(1))
    return r


def make_baseline():
    """Records the local names and loop shapes the contracts were written against."""
    b, proved = {}, {}
    for p in sorted(os.listdir(f'{V}/contracts')):
        if p.endswith('.vc'):
            comp = parse(f'{V}/contracts/{p}', {})
            ids = [f.id for f in comp['fns']]
            if not ids:
                continue
            x = run_extract({'fns': ids, 'external': [], 'types': [], 'consts': [], 'end_markers': ids})
            mode = {f.id: f.mode for f in comp['fns']}
            for i in ids:
                f = x['fns'].get(i)
                if mode[i] != 'fn' and proved.get(i):
                    continue
                proved[i] = mode[i] == 'fn'
                if not f or f.get('missing'):
                    print('missing', i)
                    continue
                order = [int(u) for u in re.findall(r'__vcinv ! \( (\d+) \) ;', f['body'])]
                k = {l['uid']: l for l in f['loops']}
                b[i] = {'names': f['params'] + f['raw_locals'], 'loops': [k[u]['kind'] for u in order], 'over': [k[u]['src'] for u in order]}
                acc = acc_of(f['body'], order)
                b[i]['stops'] = [stop_of(f['body'], acc[j]) if j in acc else '' for j in range(len(order))]
    json.dump(b, open(f'{V}/contracts/baseline.json', 'w'), indent=1, sort_keys=True)


def verus(path, rlimit=30, timeout=420, seed=None, errors=60):
    cmd = ['verus', '--output-json', '--time', '--multiple-errors', str(errors), '--rlimit', str(rlimit), '--num-threads', '8',
           '--error-format=json', path]
    if seed is not None:
        cmd += ['--smt-option', f'smt.random_seed={seed}']
    late = False
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    try:
        stdout, stderr = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        stdout, stderr = p.communicate()
    diags = []
    for l in stderr.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    i = stdout.find('{')
    try:
        o = json.loads(stdout[i:]) if i >= 0 else {}
    except ValueError:
        o = {}
    r = o.get('verification-results', {})
    errs = [d for d in diags if d['level'] == 'error' and not d['message'].startswith('aborting due')]
    fb = []
    for m in o.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fb.append(dict(f, module=m.get('module', '')))
    res = {'late': late, 'cmd': ' '.join(cmd), 'verified': r.get('verified', 0), 'failed': r.get('errors', 0), 'errors': errs, 'breakdown': fb,
           'smt_ms': o.get('times-ms', {}).get('smt', {}).get('smt-run', 0), 'stderr': stderr[-4000:],
           'vir': r.get('encountered-vir-error', True)}
    if late:
        # stopped: what was refuted until then counts, nothing is proved
        res['status'] = 'failed' if any(k in d['message'].lower() for d in errs for k in SEMANTIC) else 'timeout'
    elif not r or r.get('encountered-vir-error') or (errs and not fb):
        res['status'] = 'compile'
    elif r.get('success'):
        res['status'] = 'ok'
    else:
        res['status'] = 'failed'
    return res


SEMANTIC = ('postcondition not satisfied', 'invariant not satisfied', 'precondition not satisfied', 'assertion failed',
            'possible arithmetic', 'possible division', 'decreases not satisfied', 'recommendation not met', 'termination',
            'possible bit shift', 'unreachable', 'requirement not met')


def describe(gen, d):
    """-> (kind, description, function id) of a Verus diagnostic"""
    spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
    desc = owner = None
    for s in spans:
        if s['line_start'] in gen.owner:
            owner = owner or gen.owner[s['line_start']]
    for s in spans:
        for l in range(s['line_start'], s['line_end'] + 1):
            if l in gen.map:
                desc = desc or gen.map[l]
    where = spans[0]['text'][0]['text'].strip() if spans and spans[0]['text'] else ''
    other = [s['text'][0]['text'].strip() for s in spans[1:] if s['text']]
    return d['message'], desc or where, owner, where, other


def lost_locals(gen, r):
    """-> positions of the loop invariants and ghost statements that speak of a local which no longer exists, if nothing
    else keeps the text from being compiled"""
    out = set()
    for d in r['errors']:
        if not re.match(r'cannot find value `\w+` in this scope', d['message']):
            return set()
        for s in d['spans']:
            if s['is_primary']:
                m = re.match(r'(?:invariant|ghost code .*?) (\S+\.vc:\d+) of ', gen.map.get(s['line_start'], ''))
                if not m:
                    return set()
                out.add(m.group(1) + ('#2' if m.group(1) in gen.skipped else ''))
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'baseline':
        make_baseline()
    else:
        name, prop = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != 'all' else None)
        can = 'canary' in sys.argv
        g = Gen(name, prop, canary=can)
        os.makedirs('/tmp/vg', exist_ok=True)
        path = f'/tmp/vg/{name}_{prop or "all"}.rs'
        open(path, 'w').write(g.text())
        r = verus(path)
        kw = {}
        for how in ('skip', 'skip', 'skip', 'guess', 'alt'):
            if how == 'skip' and r['status'] == 'compile' and lost_locals(g, r):
                kw['skip'] = lost_locals(g, r) | set(g.skipped)
            elif how == 'guess' and g.guesses and r['status'] != 'ok':
                kw['guess'] = False
            elif how == 'alt' and g.alternatives and r['status'] == 'failed':
                kw['alt'] = 1
            else:
                continue
            print('again with', kw)
            g = Gen(name, prop, canary=can, **kw)
            open(path, 'w').write(g.text())
            r = verus(path)
        print(r['status'], r.get('verified'), r.get('failed'), 'smt', r.get('smt_ms'))
        for d in r['errors']:
            if r['status'] == 'compile' or '-v' in sys.argv:
                print(d['rendered'])
            else:
                m, desc, o, w, oth = describe(g, d)
                print('-', m, '|', desc, '|', w[:150], '|', [z[:120] for z in oth])
        if r['status'] == 'compile' and not r['errors']:
            print(r['stderr'])
        slow = sorted(r.get('breakdown', []), key=lambda f: -f['time'])[:4]
        print([(f['function'], f['time'], f['rlimit']) for f in slow])
        if can:
            hit = {gen for d in r['errors'] for s in d['spans'] for gen in [g.map.get(s['line_start'])] if gen and gen.startswith('CANARY')}
            miss = [c for i, c in enumerate(g.canaries) if f'CANARY {i}' not in hit]
            print('canaries', len(g.canaries), 'vacuous:', miss)
