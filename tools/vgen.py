"""Build the Verus crate from the templates in /verif/verus and the *current* source text of /repo.

A template is Verus text with directives on lines of their own:

  //@item PATH KIND NAME         insert the definition of struct/enum/const/static/type NAME verbatim
                                 (fields made pub, attributes other than derive(Clone, Copy, PartialEq, Eq) dropped)
  //@consts PATH TYPE            insert the associated constants of `impl TYPE` verbatim
  //@fn PATH QUALNAME            insert the function verbatim (QUALNAME: name, Type::name or Trait for Type::name;
                                 OUTER/name for a function defined inside OUTER, which is left out there)
    //@ret NAME                  name of the result in the contract
    //@sig /REGEX/ => TEXT       rewriting of the signature
    //@sub /REGEX/ => TEXT       rewriting of the body (every occurrence; must occur, else the anchor is lost)
    //@sub? /REGEX/ => TEXT      same, optional
    //@sub& /REGEX/ => TEXT      same, on the body and the contract... (unused)
    //@spec                      following lines: requires/ensures clauses
    //@loop K [GHOSTITER]        following lines: invariant/decreases clauses of the K-th loop of the body
    //@loopstart K / //@loopend K  following lines: proof text at the start / end of the body of loop K
    //@afterloop K               following lines: proof text after the K-th loop
    //@start / //@end            following lines: proof text at the start / end of the body (end: before a tail expression)
    //@before /REGEX/ | //@after /REGEX/   proof text before/after the first statement that contains a match
    //@hint-optional             lost proof anchors do not matter
  //@endfn
  //@props P01 P02 ...           the properties the following contracts belong to (until the next //@props)
  //@static PATH NAME            insert a static as `exec static` with //@spec (its contract) and //@start (proof text
                                 after its value is built); ended by //@endfn

Everything else in a template is ghost text (specifications, lemmas) or a stand-in listed in TRUSTED.
Executable text of the functions under contract comes from /repo only.
"""
import os, re

class Lost(Exception):
    pass

def byte_strings(t):
    """b"AB" -> &[65u8, 66u8] (Verus has no byte string literals)"""
    if 'b"' not in t:
        return t
    out = []
    for k, x, _ in lex(t):
        if k == 'str' and x.startswith('b'):
            v = eval(x)
            x = '&[%s]' % ', '.join('%du8' % c for c in v)
        out.append(x)
    return ''.join(out)

# ------------------------------------------------------------------ lexing

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*.*?\*/)
  | (?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\.\.=|\.\.\.|\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||<<=|>>=|<<|>>|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)

def lex(s):
    """list of (kind, text, start); comments and blanks kept"""
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Lost('cannot tokenise at %r' % s[i:i + 20])
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        for name in ('rstr', 'ws', 'lc', 'bc', 'str', 'chr', 'life', 'num', 'id', 'op'):
            if m.group(name) is not None:
                k = name
                break
        out.append((k, m.group(0), i))
        i = m.end()
    return out

def strip_comments(s):
    return ''.join(('\n' if k == 'lc' else ' ') if k in ('lc', 'bc') else t for k, t, _ in lex(s))

def sig_tokens(s):
    return [x for x in lex(s) if x[0] not in ('ws', 'lc', 'bc')]

OPEN, CLOSE = '([{', ')]}'

def match_from(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j][1]
        if toks[j][0] == 'op':
            if t in OPEN:
                d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost('unbalanced brackets')

class Source:
    """One source file: finds items and functions by name, ignoring #[cfg(test)] modules."""
    def __init__(self, path):
        self.path = path
        self.text = strip_comments(open(path).read())
        self.toks = sig_tokens(self.text)
        self.index()

    def index(self):
        self.fns = {}       # qualified name -> (start, sig_end, body_start, body_end)
        self.items = {}     # (kind, name) -> (start, end)
        self.consts = {}    # impl owner -> [names of its associated constants]
        self.walk(0, len(self.toks), '')

    def attr_start(self, i):
        return self.toks[i][2]

    def walk(self, i, end, owner):
        T = self.toks
        start = None        # start of the attributes/visibility of the current item
        skip_test = False
        while i < end:
            k, t, p = T[i]
            if start is None:
                start = i
            if t == '#' and i + 1 < end and T[i + 1][1] == '[':
                j = match_from(T, i + 1)
                a = self.text[T[i][2]:T[j][2] + 1]
                if re.search(r'cfg\s*\(\s*test', a):
                    skip_test = True
                i = j + 1
                continue
            if t == '#' and i + 2 < end and T[i + 1][1] == '!':
                i = match_from(T, i + 2) + 1
                start = None
                continue
            if t in ('pub',):
                i += 1
                if i < end and T[i][1] == '(':
                    i = match_from(T, i) + 1
                continue
            if t in ('unsafe', 'async', 'extern') or (t == 'const' and T[i + 1][1] in ('fn', 'unsafe')):
                i += 1
                continue
            if t == 'fn':
                name = T[i + 1][1]
                j = i + 2
                while T[j][1] not in ('{', ';'):
                    if T[j][1] in '([':
                        j = match_from(T, j)
                    j += 1
                if T[j][1] == ';':
                    e = j
                else:
                    e = match_from(T, j)
                    if not skip_test:
                        q = (owner + '::' if owner else '') + name
                        self.fns[q] = (T[start][2], T[j][2], T[e][2])
                        if self.full:
                            self.fns[self.full + '::' + name] = self.fns[q]
                i, start, skip_test = e + 1, None, False
                continue
            if t in ('impl', 'trait', 'mod'):
                j = i + 1
                while T[j][1] not in ('{', ';'):
                    j += 1
                if T[j][1] == ';':
                    i, start, skip_test = j + 1, None, False
                    continue
                e = match_from(T, j)
                if not skip_test:
                    if t == 'mod':
                        own = owner
                    elif t == 'trait':
                        own = T[i + 1][1]
                    else:
                        own = self.impl_name(T[i + 1:j])
                    self.full = self.impl_full(T[i + 1:j]) if t == 'impl' else None
                    self.walk(j + 1, e, own)
                    self.full = None
                i, start, skip_test = e + 1, None, False
                continue
            if t in ('struct', 'enum', 'const', 'static', 'type', 'use', 'macro_rules', 'union'):
                n = i + 1
                if T[n][1] == 'mut':
                    n += 1
                name = T[n][1]
                j = i
                while j < end and T[j][1] != ';':
                    if T[j][1] in OPEN:
                        b = T[j][1]
                        j = match_from(T, j)
                        if b == '{' and t in ('struct', 'enum', 'macro_rules', 'union'):
                            break
                    j += 1
                if not skip_test:
                    q = owner + '::' + name if owner and t == 'const' else name
                    self.items[(t, q)] = (T[start][2], T[min(j, end - 1)][2] + 1)
                    if q != name:
                        self.consts.setdefault(owner, []).append(name)
                i, start, skip_test = j + 1, None, False
                continue
            i += 1
            start = None

    full = None

    @staticmethod
    def impl_full(toks):
        """the same with generics, e.g. 'From<&[u8]> for Id' (lifetimes dropped)"""
        i = 0
        if toks and toks[0][1] == '<':
            d = 0
            while True:
                d += {'<': 1, '>': -1, '>>': -2}.get(toks[i][1], 0)
                i += 1
                if d == 0:
                    break
        return ''.join(' for ' if t == 'for' else t for k, t, _ in toks[i:] if k != 'life')

    @staticmethod
    def impl_name(toks):
        """impl<...> Trait for Type / impl Type -> 'Trait for Type' or 'Type' (last path segment, no generics)"""
        parts, cur, d = [], [], 0
        i = 0
        if toks and toks[0][1] == '<':
            d = 0
            while True:
                if toks[i][1] == '<':
                    d += 1
                if toks[i][1] == '>':
                    d -= 1
                i += 1
                if d == 0:
                    break
        d = 0
        names = ['']
        for k, t, _ in toks[i:]:
            if t == '<':
                d += 1
            elif t == '>':
                d -= 1
            elif t == '>>':
                d -= 2
            elif d == 0 and t == 'for':
                names.append('')
            elif d == 0 and t == 'where':
                break
            elif d == 0 and k == 'id' and t not in ('dyn', 'mut'):
                names[-1] = t
        return ' for '.join(n for n in names if n)

    def fn(self, q):
        if '/' in q:
            # a function defined inside another one
            outer, inner = q.split('/')
            body = self.fn(outer)[1]
            toks = sig_tokens(body)
            for i, t in enumerate(toks):
                if t[1] == 'fn' and toks[i + 1][1] == inner:
                    j = i + 2
                    while toks[j][1] != '{':
                        if toks[j][1] in '([':
                            j = match_from(toks, j)
                        j += 1
                    e = match_from(toks, j)
                    return body[t[2]:toks[j][2]], body[toks[j][2]:toks[e][2] + 1]
            raise Lost('function %s not found in %s' % (q, self.path))
        if q not in self.fns:
            raise Lost('function %s not found in %s' % (q, self.path))
        a, b, e = self.fns[q]
        return self.text[a:b], self.text[b:e + 1]

    def item(self, kind, name):
        if (kind, name) not in self.items:
            raise Lost('%s %s not found in %s' % (kind, name, self.path))
        a, e = self.items[(kind, name)]
        return self.text[a:e]

# ------------------------------------------------------------------ rewriting

def drop_attrs(s, keep=r'derive'):
    toks = sig_tokens(s)
    out, i, last = [], 0, 0
    while i < len(toks):
        if toks[i][1] == '#' and i + 1 < len(toks) and toks[i + 1][1] == '[':
            j = match_from(toks, i + 1)
            a = s[toks[i][2]:toks[j][2] + 1]
            out.append(s[last:toks[i][2]])
            m = re.match(r'#\s*\[\s*derive\s*\((.*)\)\s*\]', a, re.S)
            if m and keep:
                d = [x.strip() for x in m.group(1).split(',')]
                d = [x for x in d if x in ('Clone', 'Copy', 'PartialEq', 'Eq')]
                # derived PartialEq is given a meaning by Verus only together with Structural
                if d:
                    out.append('#[derive(%s)]\n' % ', '.join(d))
            last = toks[j][2] + 1
            i = j + 1
            continue
        i += 1
    out.append(s[last:])
    return ''.join(out)

def pub_fields(s):
    """make the fields of a struct public"""
    toks = sig_tokens(s)
    k = next(i for i, t in enumerate(toks) if t[1] in ('struct', 'enum'))
    if toks[k][1] == 'enum':
        return s
    b = k
    while toks[b][1] not in ('{', '(', ';'):
        b += 1
    if toks[b][1] == ';':
        return s
    e = match_from(toks, b)
    ins, i = [], b + 1
    at = True
    ang = 0
    while i < e:
        t = toks[i][1]
        if at:
            if t != 'pub':
                ins.append(toks[i][2])
            at = False
        if t == '<':
            ang += 1
        elif t == '>':
            ang -= 1
        elif t == '>>':
            ang -= 2
        elif t in OPEN:
            i = match_from(toks, i)
        elif t == ',' and ang == 0:
            at = True
        i += 1
    for p in reversed(ins):
        s = s[:p] + 'pub ' + s[p:]
    return s

def loops(body):
    """[(kw_pos, in_pos or None, brace_pos, close_pos)] of the loops of a body, in textual order"""
    toks = sig_tokens(body)
    out = []
    for i, (k, t, p) in enumerate(toks):
        if k != 'id' or t not in ('for', 'while', 'loop'):
            continue
        if t == 'for' and i + 1 < len(toks) and toks[i + 1][1] == '<':
            continue
        j, inpos = i + 1, None
        while toks[j][1] != '{':
            if toks[j][1] in '([':
                j = match_from(toks, j)
            elif toks[j][0] == 'id' and toks[j][1] == 'in' and inpos is None:
                inpos = toks[j][2]
            j += 1
        e = match_from(toks, j)
        out.append((p, inpos, toks[j][2], toks[e][2]))
    return out

def statement_bounds(body, pos):
    """(start, end) of the innermost statement of `body` that contains position pos"""
    toks = sig_tokens(body)
    stack, start = [], None
    # find enclosing block
    opens = []
    for i, (k, t, p) in enumerate(toks):
        if p > pos:
            break
        if k == 'op' and t in OPEN:
            opens.append(i)
        elif k == 'op' and t in CLOSE and p < pos:
            opens.pop()
    while opens and toks[opens[-1]][1] != '{':
        opens.pop()
    b = opens[-1]
    e = match_from(toks, b)
    i = b + 1
    s = i
    while i < e:
        t = toks[i][1]
        if t in OPEN:
            j = match_from(toks, i)
            # a block that ends a statement
            nxt = toks[j + 1][1] if j + 1 < len(toks) else ''
            if t == '{' and nxt not in ('else', '.', '?', ';', ',', ')', '=>', '+', '-', '==', '&&', '||', 'as') and toks[s][1] in ('if', 'for', 'while', 'loop', 'match', 'unsafe', '{', '#'):
                if toks[s][2] <= pos <= toks[j][2]:
                    return toks[s][2], toks[j][2] + 1
                i = j + 1
                s = i
                continue
            i = j + 1
            continue
        if t == ';':
            if toks[s][2] <= pos <= toks[i][2]:
                return toks[s][2], toks[i][2] + 1
            s = i + 1
        i += 1
    return toks[s][2], toks[e][2]

def tail_start(body):
    """position of the tail expression of a body (or of its closing brace)"""
    e = body.rstrip().rfind('}')
    toks = sig_tokens(body)
    i, s = 1, 1
    end = len(toks) - 1
    while i < end:
        t = toks[i][1]
        if t in OPEN:
            j = match_from(toks, i)
            nxt = toks[j + 1][1] if j + 1 < len(toks) else ''
            if t == '{' and toks[s][1] in ('if', 'for', 'while', 'loop', 'match', 'unsafe', '{') and nxt not in ('else', '.', '?', ';', '}') :
                i = j + 1
                s = i
                continue
            i = j + 1
            continue
        if t == ';':
            s = i + 1
        i += 1
    return toks[s][2] if s < end else toks[end][2]

def elim_continue(body):
    """for-loop bodies: `if C { continue; } R` becomes `if C { } else { R }` (Verus has no `continue` in for loops)"""
    for _ in range(20):
        for kw, inp, br, cl in loops(body):
            if inp is None:
                continue
            toks = sig_tokens(body)
            i = next(k for k, t in enumerate(toks) if t[2] == br)
            e = match_from(toks, i)
            j, s, done = i + 1, i + 1, False
            while j < e:
                t = toks[j][1]
                if t in OPEN:
                    m = match_from(toks, j)
                    if t == '{' and toks[s][1] == 'if' and m == j + 3 and toks[j + 1][1] == 'continue' and toks[j + 2][1] == ';' and toks[m + 1][1] != 'else':
                        body = body[:toks[j][2]] + '{ } else {' + body[toks[m][2] + 1:cl] + '}' + body[cl:]
                        done = True
                        break
                    nxt = toks[m + 1][1]
                    j = m + 1
                    if t == '{' and toks[s][1] in ('if', 'for', 'while', 'loop', 'match', 'unsafe', '{') and nxt not in ('else', '.', '?', ';'):
                        s = j
                    continue
                if t == ';':
                    s = j + 1
                j += 1
            if done:
                break
        else:
            return body
    return body

def while_loops(body):
    """`loop { if C { break; } R }` becomes `while !(C) { R }` (the same loop; the contracts are written for `while`)"""
    for _ in range(20):
        toks = sig_tokens(body)
        for i, (k, t, p) in enumerate(toks):
            if k != 'id' or t != 'loop' or toks[i + 1][1] != '{' or toks[i + 2][1] != 'if':
                continue
            j = i + 3
            while toks[j][1] != '{':
                if toks[j][1] in '([':
                    j = match_from(toks, j)
                j += 1
            m = match_from(toks, j)
            if m != j + 3 or toks[j + 1][1] != 'break' or toks[j + 2][1] != ';' or toks[m + 1][1] == 'else':
                continue
            c = body[toks[i + 2][2] + 2:toks[j][2]].strip()
            if re.search(r'\blet\b', c):
                continue
            body = body[:p] + 'while !(%s) {' % c + body[toks[m][2] + 1:]
            break
        else:
            return body
    return body

def drop_nested(body):
    """functions defined inside a body are extracted on their own"""
    toks = sig_tokens(body)
    for i, t in enumerate(toks):
        if t[0] == 'id' and t[1] == 'fn' and toks[i + 1][0] == 'id' and toks[i - 1][1] in ('{', ';', '}'):
            j = i + 2
            while toks[j][1] != '{':
                if toks[j][1] in '([':
                    j = match_from(toks, j)
                j += 1
            e = match_from(toks, j)
            return drop_nested(body[:t[2]] + body[toks[e][2] + 1:])
    return body

class Gen:
    def __init__(self, repo, tdir):
        self.repo, self.tdir = repo, tdir
        self.src = {}
        self.lines = []
        self.ranges = []     # (first, last, name, module, info)
        self.lost = []       # (name, reason, hint?)
        self.external = {}   # name -> reason: force external_body
        self.subs_used = []
        self.kinds = {}
        lf = os.path.join(tdir, 'LOOPS')
        self.want_kinds = dict(l.rstrip('\n').split('\t') for l in open(lf)) if os.path.exists(lf) else {}

    def source(self, path):
        if path not in self.src:
            self.src[path] = Source(os.path.join(self.repo, path))
        return self.src[path]

    def emit(self, text):
        self.lines += text.split('\n')

    def build(self, modules, external=None):
        self.lines, self.ranges, self.lost, self.props, self.subs_used = [], [], [], [], []
        self.modrange = {}
        self.external = external if external is not None else {}
        for m in modules:
            a = len(self.lines) + 1
            self.template(m)
            self.modrange[m] = (a, len(self.lines))
        return '\n'.join(self.lines) + '\n'

    def template(self, name):
        L = open(os.path.join(self.tdir, name + '.rs')).read().split('\n')
        i = 0
        while i < len(L):
            m = re.match(r'\s*//@(\w+)\s*(.*)', L[i])
            if not m:
                self.lines.append(L[i])
                i += 1
                continue
            d, arg = m.group(1), m.group(2).strip()
            if d == 'item':
                path, kind, nm = arg.split()[:3]
                try:
                    t = self.source(path).item(kind, nm)
                    t = byte_strings(drop_attrs(t))
                    if kind in ('struct', 'enum'):
                        t = pub_fields(t)
                    rest = arg.split(None, 3)
                    if len(rest) > 3:
                        for sub in rest[3].split(';;'):
                            mm = re.match(r'\s*/(.*)/\s*=>\s*(.*)', sub)
                            t = re.sub(mm.group(1), mm.group(2), t)
                    if not re.match(r'\s*(#\[[^\]]*\]\s*)*pub', t):
                        t = re.sub(r'^((?:\s*#\[[^\]]*\]\s*)*)', r'\1pub ', t, count=1)
                    self.emit(t)
                except Lost as e:
                    self.lost.append(('item %s' % nm, str(e), False))
                i += 1
                continue
            if d == 'consts':
                path, own = arg.split()[:2]
                src = self.source(path)
                for nm in src.consts.get(own, []):
                    t = drop_attrs(src.item('const', own + '::' + nm), keep='').strip()
                    self.emit(re.sub(r'^(pub(\s*\([^)]*\))?\s+)?', 'pub ', t, count=1))
                i += 1
                continue
            if d in ('fn', 'static'):
                j = i + 1
                while not re.match(r'\s*//@endfn', L[j]):
                    j += 1
                (self.function if d == 'fn' else self.static)(name, arg, L[i + 1:j])
                i = j + 1
                continue
            if d == 'props':
                self.props.append((len(self.lines) + 1, name, tuple(arg.replace(',', ' ').split())))
                i += 1
                continue
            raise ValueError('unknown directive %s in %s' % (L[i], name))

    def static(self, module, arg, L):
        path, nm = arg.split()[:2]
        q = 'static %s of %s' % (nm, path)
        spec, proof, cur = [], [], None
        for l in L:
            m = re.match(r'\s*//@(\w+)', l)
            if m:
                cur = {'spec': spec, 'start': proof}[m.group(1)]
            elif cur is not None:
                cur.append(l)
        try:
            t = drop_attrs(self.source(path).item('static', nm), keep='').strip()
            m = re.match(r'(?:pub(?:\s*\([^)]*\))?\s+)?static\s+\w+\s*:\s*(.*?)\s*=\s*(.*?)\s*;?\s*$', strip_comments(t), re.S)
            if not m:
                raise Lost('cannot parse static %s' % nm)
        except Lost as e:
            self.lost.append((q, str(e), False))
            return
        self.lines.append('// %s' % q)
        first = len(self.lines) + 1
        ext = q in self.external
        if ext:
            self.emit('#[verifier::external_body]')
        ty = re.sub(r"&(?!')", "&'static ", m.group(1))
        self.emit('pub exec static %s: %s\n%s\n{' % (nm, ty, '\n'.join(spec)))
        self.emit('    let r_: %s = %s;\n%s\n    r_\n}' % (ty, m.group(2), '' if ext else '\n'.join(proof)))
        self.ranges.append((first, len(self.lines), q, module, []))

    def function(self, module, arg, L):
        path, q = arg.split(None, 1)
        sec = {}
        cur = None
        ret, sigs, subs, optional = None, [], [], False
        for l in L:
            m = re.match(r'\s*//@([\w?&-]+)\s*(.*)', l)
            if not m:
                if cur is not None:
                    sec[cur].append(l)
                continue
            d, a = m.group(1), m.group(2).strip()
            cur = None
            if d == 'ret':
                ret = a
            elif d == 'hint-optional':
                optional = True
            elif d in ('sig', 'sub', 'sub?'):
                mm = re.match(r'/(.*)/\s*=>\s?(.*)', a)
                (sigs if d == 'sig' else subs).append((mm.group(1), mm.group(2), d))
            elif d in ('spec', 'start', 'end'):
                cur = (d,)
                sec.setdefault(cur, [])
            elif d in ('loop', 'loopstart', 'loopend', 'afterloop', 'beforeloop'):
                p = a.split()
                cur = (d, int(p[0]))
                sec.setdefault(cur, [])
                if d == 'loop' and len(p) > 1:
                    sec[('iter', int(p[0]))] = p[1]
            elif d in ('before', 'after'):
                mm = re.match(r'/(.*)/', a)
                cur = (d, mm.group(1))
                sec.setdefault(cur, [])
            else:
                raise ValueError('unknown directive //@%s in %s' % (d, q))
        try:
            sig, body = self.source(path).fn(q)
        except Lost as e:
            self.lost.append((q, str(e), False))
            return
        sig = drop_attrs(sig, keep='').strip()
        lost_here = []
        try:
            sig = re.sub(r'^(pub(\s*\([^)]*\))?\s+)?', 'pub ', sig, count=1)
            for rx, to, _ in sigs:
                new = re.sub(rx, to, sig, flags=re.S)
                sig = new
            if ret:
                m = re.search(r'->\s*(.*?)\s*$', sig, re.S)
                if m:
                    sig = sig[:m.start()] + '-> (%s: %s)' % (ret, m.group(1).rstrip(','))
                else:
                    sig = sig + ' -> (%s: ())' % ret
            body = drop_nested(byte_strings(body))
            for rx, to, kind in subs:
                new, n = re.subn(rx, to, body, flags=re.S)
                # a rewriting that only retargets a call (no proof text, no loop) is not missed:
                # the unrewritten call would not type-check, so a body without it really lacks it
                if n == 0 and kind == 'sub' and re.search(r'\bproof\b|\bghost\b|\bGhost\b|\bassert\b|\bloop\b|\bwhile\b|\bfor\b', to):
                    lost_here.append('rewriting anchor /%s/ not found' % rx)
                if n:
                    self.subs_used.append('%s: /%s/ => %s' % (q, rx, to))
                body = new
            body = re.sub(r'(?:::)?\bstd::([ui](?:8|16|32|64|size))::', r'\1::', body)
            # assert_eq!(A, B) is assert!(A == B)
            body = re.sub(r'assert_eq!\(([^,;]+?),\s*([^,;]+?),?\s*\);', r'assert!(\1 == \2);', body)
            body = elim_continue(while_loops(body))
            ins = []    # (pos, text, order)
            lp = loops(body)
            # invariants are written for one form of a loop: in another form their failure is no verdict
            kinds = ' '.join(re.match(r'\w+', body[kw:]).group(0) for kw, _, _, _ in lp)
            self.kinds[q] = kinds
            if q in self.want_kinds and self.want_kinds[q] != kinds:
                lost_here.append('the loops of the contract are "%s", those of the source "%s"' % (self.want_kinds[q], kinds))
            for key, txt in sec.items():
                if key[0] == 'iter' or key[0] == 'spec':
                    continue
                t = '\n' + '\n'.join(txt) + '\n'
                if key[0] in ('loop', 'loopstart', 'loopend', 'afterloop', 'beforeloop'):
                    k = key[1]
                    if k > len(lp):
                        lost_here.append('loop %d not found' % k)
                        continue
                    kw, inp, br, cl = lp[k - 1]
                    if key[0] == 'loop':
                        ins.append((br, t))
                        it = sec.get(('iter', k))
                        if it:
                            if inp is None:
                                lost_here.append('loop %d is not a for loop' % k)
                            else:
                                ins.append((inp + 2, ' %s:' % it))
                    elif key[0] == 'loopstart':
                        ins.append((br + 1, t))
                    elif key[0] == 'loopend':
                        ins.append((cl, t))
                    elif key[0] == 'beforeloop':
                        ins.append((kw, t))
                    else:
                        ins.append((cl + 1, t))
                elif key[0] == 'start':
                    ins.append((body.index('{') + 1, t))
                elif key[0] == 'end':
                    ins.append((tail_start(body), t))
                else:
                    m = re.search(key[1], body, re.S)
                    if not m:
                        lost_here.append('proof anchor /%s/ not found' % key[1])
                        continue
                    a, e = statement_bounds(body, m.start())
                    ins.append((a if key[0] == 'before' else e, t))
            for p, t in sorted(ins, key=lambda x: -x[0]):
                body = body[:p] + t + body[p:]
            nspec = sum(1 for k in sec if k[0] == 'loop')
            if nspec != len(lp) and nspec:
                lost_here.append('%d loops in the source, %d under contract' % (len(lp), nspec))
            tk = sig_tokens(body)
            if tk[0][1] != '{' or match_from(tk, 0) != len(tk) - 1:
                raise Lost('unbalanced brackets')
        except Lost as e:
            lost_here.append(str(e))
            self.external.setdefault(q, 'rewriting failed: %s' % e)
        spec = '\n'.join(sec.get(('spec',), []))
        self.lines.append('// %s' % q)
        first = len(self.lines) + 1
        if q in self.external or (module + '::' + q) in self.external:
            self.emit('#[verifier::external_body]')
            self.emit(sig + '\n' + spec + '\n{ unimplemented!() }')
        else:
            self.emit(sig + '\n' + spec + '\n' + body)
        self.ranges.append((first, len(self.lines), q, module, lost_here if not optional else []))
        for r in lost_here:
            self.lost.append((q, r, True))

    def props_at(self, line):
        """properties that rely on the contract at this line (tag // [Pxx ...] on the line, else the //@props directive in force)"""
        m = re.search(r'// \[((?:P\d\d ?)+)\]\s*$', self.lines[line - 1])
        if m:
            return tuple(m.group(1).split())
        cur = ()
        mod = next((m for m, (a, b) in self.modrange.items() if a <= line <= b), None)
        for l, m, ps in self.props:
            if m == mod and l <= line:
                cur = ps
        return cur

    def modules_of(self, prop):
        return sorted({m for _, m, ps in self.props if prop in ps})

    def where(self, line):
        for a, b, q, m, lost in self.ranges:
            if a <= line <= b:
                return q, m, lost
        return None
