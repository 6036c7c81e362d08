"""A parser for the part of bash that scripts like sudo_approve are written in.

parse(text) -> list of commands.  Anything outside that part raises Unknown,
which makes the check inconclusive.  Nodes are tuples:
  ('simple', [(name, word, append)], [word], [redir])     redir = (fd, op, word)
  ('pipe', [cmd], negated)   ('and', a, b)   ('or', a, b)   ('seq', [cmd])
  ('if', [(cond, body)], else)   ('while', cond, body, until)   ('for', name, [word] or None, body)
  ('case', word, [([pattern], body)])   ('func', name, body)   ('group', cmd)   ('sub', cmd)
  ('cond', expr)   ('arith', word)   each of the compound ones possibly in ('redir', cmd, [redir])
A word is a list of parts: ('lit', text, quoted), ('var', name, op, word, quoted),
  ('cmd', seq, quoted), ('arith', word, quoted), ('proc', seq)
"""
class Unknown(Exception): pass

RESERVED = {'if', 'then', 'elif', 'else', 'fi', 'while', 'until', 'for', 'do', 'done', 'case', 'esac', 'in', '{', '}', '!', '[[', 'function', 'time', 'select', 'coproc'}
META = set(' \t\n;&|()<>')

class P:
    def __init__(s, t): s.t, s.i, s.heredocs = t, 0, []
    def peek(s, k=1): return s.t[s.i:s.i + k]
    def err(s, why): raise Unknown('line %d: %s' % (s.t.count('\n', 0, s.i) + 1, why))
    def blanks(s, nl=False):
        while s.i < len(s.t):
            c = s.t[s.i]
            if c in ' \t': s.i += 1
            elif c == '\\' and s.peek(2) == '\\\n': s.i += 2
            elif c == '#' and (s.i == 0 or s.t[s.i - 1] in ' \t\n;&|()'):
                while s.i < len(s.t) and s.t[s.i] != '\n': s.i += 1
            elif c == '\n' and nl: s.newline()
            else: break
    def newline(s):
        s.i += 1
        for (delim, strip, quoted, box) in s.heredocs:
            lines = []
            while True:
                if s.i >= len(s.t): s.err('unfinished here document')
                j = s.t.find('\n', s.i); j = len(s.t) if j < 0 else j
                l = s.t[s.i:j]; s.i = min(j + 1, len(s.t))
                if strip: l = l.lstrip('\t')
                if l == delim: break
                lines.append(l + '\n')
            text = ''.join(lines)
            box.extend([('lit', text, True)] if quoted else P(text).dq(end=None))
        s.heredocs = []
    # ---- words
    def name(s):
        j = s.i
        while j < len(s.t) and (s.t[j].isalnum() or s.t[j] == '_') and s.t[j].isascii(): j += 1
        n = s.t[s.i:j]
        if n[:1].isdigit(): n = ''
        return n
    def word(s, stop=META, pattern=False):
        "parts of one word, or None"
        r, lit, depth = [], '', 0
        def flush():
            nonlocal lit
            if lit: r.append(('lit', lit, False)); lit = ''
        start = s.i
        while s.i < len(s.t):
            c = s.t[s.i]
            if c == '\\':
                if s.peek(2) == '\\\n': s.i += 2; continue
                flush(); r.append(('lit', s.t[s.i + 1:s.i + 2], True)); s.i += 2
            elif c == "'":
                j = s.t.find("'", s.i + 1)
                if j < 0: s.err('unfinished quote')
                flush(); r.append(('lit', s.t[s.i + 1:j], True)); s.i = j + 1
            elif c == '"':
                s.i += 1; flush(); q = s.dq('"'); r.extend(q or [('lit', '', True)])
            elif c == '$': flush(); r.extend(s.dollar(False))
            elif c == '`': flush(); r.append(s.backtick(False))
            elif c in '<>' and s.peek(2) in ('<(', '>(') and not pattern and s.i == start:
                if c == '>': s.err('output process substitution')
                s.i += 2; r.append(('proc', s.until(')'))); s.i += 1
            elif pattern and c == '(' : depth += 1; lit += c; s.i += 1
            elif pattern and c == ')' and depth: depth -= 1; lit += c; s.i += 1
            elif pattern and depth and c in '| ': lit += c; s.i += 1
            elif c in stop: break
            else: lit += c; s.i += 1
        flush()
        return r if s.i > start else None
    def dq(s, end):
        r, lit = [], ''
        while True:
            if s.i >= len(s.t):
                if end is None: break
                s.err('unfinished double quote')
            c = s.t[s.i]
            if c == end: s.i += 1; break
            if c == '\\':
                n = s.t[s.i + 1:s.i + 2]; s.i += 2
                if n == '\n': continue
                lit += n if n in '$`"\\' else '\\' + n
            elif c == '$':
                if lit: r.append(('lit', lit, True)); lit = ''
                r.extend(s.dollar(True))
            elif c == '`':
                if lit: r.append(('lit', lit, True)); lit = ''
                r.append(s.backtick(True))
            else: lit += c; s.i += 1
        if lit: r.append(('lit', lit, True))
        return r
    def backtick(s, q):
        j = s.i + 1; t = ''
        while s.t[j:j + 1] != '`':
            if j >= len(s.t): s.err('unfinished backtick')
            if s.t[j] == '\\' and s.t[j + 1] in '$`\\': j += 1
            t += s.t[j]; j += 1
        s.i = j + 1
        return ('cmd', parse(t), q)
    def until(s, end):
        "a list of commands up to (not including) the unquoted closing character"
        r = s.list((end,))
        s.blanks(True)
        if s.peek() != end: s.err('expected ' + end)
        return r
    def dollar(s, q):
        s.i += 1
        c = s.peek()
        if s.peek(2) == '((':
            # arithmetic unless it is a substitution of a subshell
            save = s.i; s.i += 2
            try:
                w = s.arith(); return [('arith', w, q)]
            except Unknown:
                s.i = save
        if c == '(':
            s.i += 1; r = s.until(')'); s.i += 1
            return [('cmd', r, q)]
        if c == '{': s.i += 1; return [s.brace(q)]
        if c == "'" and not q:
            import codecs
            j = s.i + 1
            while s.t[j:j + 1] != "'":
                if j >= len(s.t): s.err('unfinished quote')
                j += 2 if s.t[j] == '\\' else 1
            t = s.t[s.i + 1:j]; s.i = j + 1
            return [('lit', codecs.decode(t.replace('\\e', '\\x1b'), 'unicode_escape'), True)]
        if c == '"' and not q: return []
        n = s.name()
        if n: s.i += len(n); return [('var', n, None, None, q)]
        if c and c in '@*#?$!-0123456789': s.i += 1; return [('var', c, None, None, q)]
        return [('lit', '$', q)]
    def brace(s, q):
        if s.peek() == '#' and s.t[s.i + 1:s.i + 2] not in ('}', ':', '-'):
            s.i += 1; n = s.name() or s.peek(); s.i += len(n)
            if s.peek() != '}': s.err('expansion')
            s.i += 1; return ('var', n, 'len', None, q)
        n = s.name()
        if not n:
            j = s.i
            while s.t[j:j + 1].isdigit(): j += 1
            n = s.t[s.i:j] or s.peek()
            if not (n.isdigit() or n in '@*#?$!-'): s.err('expansion ${%s' % s.peek(8))
        s.i += len(n)
        if s.peek() == '}': s.i += 1; return ('var', n, None, None, q)
        for op in (':-', ':=', ':?', ':+', '%%', '##', '-', '=', '?', '+', '%', '#', '//', '/', ':'):
            if s.peek(len(op)) == op: break
        else: s.err('expansion ${%s%s' % (n, s.peek(8)))
        if op in ('//', '/', ':'): s.err('expansion ${%s%s' % (n, op))
        s.i += len(op)
        if q:
            # within double quotes the word is quoted text, except for patterns
            if op[0] in '%#': w = s.word(stop=set('}')) or []
            else: w = s.dq('}'); s.i -= 1
        else: w = s.word(stop=set('}')) or []
        if s.peek() != '}': s.err('expansion')
        s.i += 1
        return ('var', n, op, w, q)
    def arith(s):
        "text up to )), as a quoted word"
        r, lit, depth = [], '', 0
        while True:
            if s.i >= len(s.t): s.err('unfinished arithmetic')
            c = s.t[s.i]
            if c == ')' and depth == 0:
                if s.peek(2) != '))': s.err('arithmetic')
                s.i += 2; break
            if c == '(': depth += 1
            if c == ')': depth -= 1
            if c == '$':
                if lit: r.append(('lit', lit, True)); lit = ''
                r.extend(s.dollar(True)); continue
            if c == '`': s.err('backtick in arithmetic')
            if c == '"': s.i += 1; continue
            lit += c; s.i += 1
        if lit: r.append(('lit', lit, True))
        return r
    # ---- commands
    def bare(s):
        "the reserved word or plain word at this point, without consuming it"
        j = s.i
        while j < len(s.t) and s.t[j] not in META: j += 1
        return s.t[s.i:j]
    def list(s, ends):
        r = []
        while True:
            s.blanks(True)
            if s.i >= len(s.t) or s.bare() in ends or s.peek() in ends or s.peek(2) in ends: break
            r.append(s.andor())
            s.blanks()
            c = s.peek()
            if s.peek(2) in (';;', ';&'): break
            if c == ';': s.i += 1
            elif c == '&': s.err('background job')
            elif c == '\n' or c == '' or c in ends: pass
            else: s.err('unexpected %r' % s.peek(10))
        return ('seq', r)
    def expect(s, w):
        s.blanks(True)
        if s.bare() != w: s.err('expected %s, found %r' % (w, s.peek(10)))
        s.i += len(w)
    def andor(s):
        a = s.pipeline()
        while True:
            s.blanks()
            op = s.peek(2)
            if op not in ('&&', '||'): return a
            s.i += 2; s.blanks(True)
            a = ('and' if op == '&&' else 'or', a, s.pipeline())
    def pipeline(s):
        neg = False
        while s.bare() == '!': s.i += 1; s.blanks(); neg = not neg
        cmds = [s.command()]
        while True:
            s.blanks()
            if s.peek() == '|' and s.peek(2) != '||':
                if s.peek(2) == '|&': s.err('|&')
                s.i += 1; s.blanks(True); cmds.append(s.command())
            else: break
        return cmds[0] if len(cmds) == 1 and not neg else ('pipe', cmds, neg)
    def command(s):
        c = s.compound()
        rs = s.redirs()
        return ('redir', c, rs) if rs and c[0] != 'simple' else c
    def compound(s):
        w = s.bare()
        if s.peek(2) == '((':
            save = s.i; s.i += 2
            try: return ('arith', s.arith())
            except Unknown: s.i = save
        if s.peek() == '(':
            s.i += 1; r = s.until(')'); s.i += 1; return ('sub', r)
        if w == '{':
            s.i += 1; r = s.list(('}',)); s.expect('}'); return ('group', r)
        if w == '[[': s.i += 2; return s.condition()
        if w == 'if':
            s.i += 2; arms = []; other = None
            c = s.list(('then',)); s.expect('then'); arms.append((c, s.list(('elif', 'else', 'fi'))))
            while True:
                w = s.bare()
                if w == 'elif': s.i += 4; c = s.list(('then',)); s.expect('then'); arms.append((c, s.list(('elif', 'else', 'fi'))))
                elif w == 'else': s.i += 4; other = s.list(('fi',))
                else: s.expect('fi'); return ('if', arms, other)
        if w in ('while', 'until'):
            s.i += 5; c = s.list(('do',)); s.expect('do'); b = s.list(('done',)); s.expect('done')
            return ('while', c, b, w == 'until')
        if w == 'for':
            s.i += 3; s.blanks(); n = s.name()
            if not n: s.err('for')
            s.i += len(n); s.blanks(True); ws = None
            if s.bare() == 'in':
                s.i += 2; ws = []
                while True:
                    s.blanks(); x = s.word()
                    if x is None: break
                    ws.append(x)
            s.blanks()
            if s.peek() == ';': s.i += 1
            s.expect('do'); b = s.list(('done',)); s.expect('done'); return ('for', n, ws, b)
        if w == 'case':
            s.i += 4; s.blanks(); x = s.word(); s.expect('in'); arms = []
            while True:
                s.blanks(True)
                if s.bare() == 'esac': s.i += 4; return ('case', x, arms)
                if s.peek() == '(': s.i += 1
                pats = []
                while True:
                    s.blanks(); pats.append(s.word(stop=set(' \t\n|)')) or []); s.blanks()
                    if s.peek() == '|': s.i += 1
                    elif s.peek() == ')': s.i += 1; break
                    else: s.err('case pattern')
                body = s.list((';;', 'esac'))
                if s.peek(3) == ';;&' or s.peek(2) == ';&': s.err('case fallthrough')
                if s.peek(2) == ';;': s.i += 2
                arms.append((pats, body))
        if w == 'function':
            s.i += 8; s.blanks(); n = s.bare(); s.i += len(n); s.blanks()
            if s.peek() == '(': s.i += 1; s.blanks(); s.i += 1
            s.blanks(True); return ('func', n, s.command())
        if w in RESERVED and w not in ('in', 'time'): s.err('unexpected ' + w)
        n = s.bare()
        if n and all(c.isalnum() or c in '_-.:' for c in n):
            j = s.i + len(n)
            while s.t[j:j + 1] in (' ', '\t') and s.t[j:j + 1]: j += 1
            if s.t[j:j + 1] == '(':
                s.i = j + 1; s.blanks()
                if s.peek() != ')': s.err('function')
                s.i += 1; s.blanks(True); return ('func', n, s.command())
        return s.simple()
    def redirs(s):
        r = []
        while True:
            s.blanks()
            j = s.i
            while s.t[j:j + 1].isdigit(): j += 1
            if s.t[j:j + 1] not in ('<', '>') or not s.t[j:j + 1]:
                if s.peek(2) == '&>': s.i += 2; s.blanks(); r.append(('&', '>', s.word())); continue
                return r
            if s.t[j:j + 2] in ('<(', '>('): return r
            fd = s.t[s.i:j]; s.i = j
            for op in ('<<<', '<<-', '<<', '>>', '>&', '<&', '>|', '<', '>'):
                if s.peek(len(op)) == op: break
            s.i += len(op); s.blanks()
            w = s.word()
            if w is None: s.err('redirection')
            if op in ('<<', '<<-'):
                box = []
                s.heredocs.append((''.join(p[1] for p in w), op == '<<-', any(p[2] for p in w), box)); w = box
            r.append((fd, op, w))
    def simple(s):
        assigns, words, rs = [], [], []
        while True:
            rs += s.redirs()
            s.blanks()
            if not words:
                n = s.name(); e = s.t[s.i + len(n):s.i + len(n) + 2]
                if n and (e[:1] == '=' or e == '+='):
                    s.i += len(n) + (1 if e[:1] == '=' else 2)
                    if s.peek() == '(': s.err('array')
                    assigns.append((n, s.word() or [], e == '+=')); continue
                if n and e[:1] == '[': s.err('array')
            w = s.word()
            if w is None: break
            words.append(w)
        if not assigns and not words and not rs: s.err('unexpected %r' % s.peek(10))
        return ('simple', assigns, words, rs)
    # ---- [[ ]]
    def condition(s):
        e = s.c_or(); s.blanks(True)
        if s.bare() != ']]': s.err('expected ]]')
        s.i += 2
        return ('cond', e)
    def c_or(s):
        a = s.c_and()
        while True:
            s.blanks(True)
            if s.peek(2) != '||': return a
            s.i += 2; a = ('or', a, s.c_and())
    def c_and(s):
        a = s.c_not()
        while True:
            s.blanks(True)
            if s.peek(2) != '&&': return a
            s.i += 2; a = ('and', a, s.c_not())
    def c_not(s):
        s.blanks(True)
        if s.bare() == '!': s.i += 1; return ('not', s.c_not())
        if s.peek() == '(':
            s.i += 1; e = s.c_or(); s.blanks(True)
            if s.peek() != ')': s.err('expected )')
            s.i += 1; return e
        w = s.bare()
        if len(w) == 2 and w[0] == '-' and w[1].isalpha():
            save = s.i; s.i += 2; s.blanks()
            x = s.word()
            if x is not None and s.bare() != ']]' or x is not None: return ('un', w, x)
            s.i = save
        a = s.word()
        if a is None: s.err('condition')
        s.blanks()
        op = s.bare()
        if op in ('==', '=', '!=', '=~', '-eq', '-ne', '-lt', '-le', '-gt', '-ge', '-nt', '-ot', '-ef'): s.i += len(op)
        elif s.peek() in ('<', '>') and s.peek(): op = s.peek(); s.i += 1
        else: return ('un', '-n', a)
        s.blanks()
        b = s.word(stop=set(' \t\n') | set('&|;)'), pattern=True) if op == '=~' else s.word()
        if b is None: s.err('condition')
        return ('bin', op, a, b)

def parse(text):
    p = P(text)
    r = p.list(())
    p.blanks(True)
    if p.i < len(p.t): p.err('unexpected %r' % p.peek(10))
    return r

if __name__ == '__main__':
    import sys, pprint
    pprint.pprint(parse(open(sys.argv[1]).read()), width=160)
