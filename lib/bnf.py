"""The BNF of The Complete Lojban Language (lib/bnf.txt) as tables for harness/earley.c.

full=True: every elidable terminator must be there (the language of -re);
full=False: every one of them can be left out."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
SKIP = ('any-word', 'anything')


def parse(text, full):
    rules, nt = [], {}

    def fresh():
        nt['$%d' % len(nt)] = 1
        return '$%d' % (len(nt) - 1)

    def alt(tok):                  # returns a list of alternatives (lists of symbols)
        alts = [both(tok)]
        while tok and tok[0] == '|':
            tok.pop(0); alts.append(both(tok))
        return sum(alts, [])

    def both(tok):                 # a & b: a, b or a b, in this order
        parts = [seq(tok)]
        while tok and tok[0] == '&':
            tok.pop(0); parts.append(seq(tok))
        if len(parts) == 1:
            return [parts[0]]
        names = []
        for p in parts:
            n = fresh(); rules.append((n, p)); names.append(n)
        return [[n for i, n in enumerate(names) if m >> i & 1] for m in range(1, 1 << len(names))]

    def seq(tok):
        out = []
        while tok and tok[0] not in ('|', '&', ')', ']'):
            t = tok.pop(0)
            if t == '(':
                a = alt(tok); assert tok.pop(0) == ')'; n = fresh(); rules.extend((n, x) for x in a); s = n
            elif t == '[':
                a = alt(tok); assert tok.pop(0) == ']'
                if full and a == [['terms', '$cu']]:
                    a = [['terms', 'CU', '#']]
                n = fresh(); rules.extend((n, x) for x in a); rules.append((n, [])); s = n
                if full and a == [['CU', '#']]:
                    rules[-2:] = []; s = '$cu'
            elif t.startswith('/'):
                body = [x for x in re.findall(r'[A-Za-z]+|#', t)]
                n = fresh(); rules.append((n, body)); s = n
                if not full:
                    rules.append((n, []))
            else:
                s = t
            if tok and tok[0] == '...':
                tok.pop(0); n = fresh(); rules.append((n, [s])); rules.append((n, [n, s])); s = n
            out.append(s)
        return out
    for l in text.split('\n'):
        m = re.match(r'([a-z0-9-]+)<\d+> = (.*)', l)
        if not m:
            continue
        tok = re.findall(r'/[A-Za-z]+#?/|\.\.\.|[a-zA-Z][a-zA-Z0-9-]*|[|&()\[\]#]', m[2])
        for a in alt(tok):
            rules.append((m[1], a))
        assert not tok, (l, tok)
    rules.append(('#', [])); rules.append(('#', ['#', 'free']))
    rules.append(('terms-cu', []))
    lhs = {a for a, _ in rules}
    rules = [(a, b) for a, b in rules if not any(x in SKIP for x in b)]
    return [r for r in rules if r[0] != 'terms-cu'], lhs


def tables(full):
    rules, lhs = parse(open(HERE + '/bnf.txt').read(), full)
    nts = sorted(lhs); terms = sorted({x for _, b in rules for x in b if x not in lhs})
    ni = {n: i for i, n in enumerate(nts)}; ti = {t: 1000 + i for i, t in enumerate(terms)}
    return rules, ni, ti


def header(full):
    rules, ni, ti = tables(full)
    rhs, R = [], []
    for a, b in rules:
        R.append('{%d,%d,%d}' % (ni[a], len(b), len(rhs))); rhs += [ni.get(x, ti.get(x)) for x in b]
    return ('#define NR %d\n#define NNT %d\n#define START %d\nstatic const struct { short lhs, len; int first; } R[] = {%s};\nstatic const short RHS[] = {%s, 0};\n'
            % (len(R), len(ni), ni['text'], ','.join(R), ','.join(map(str, rhs)))), ti


def selmao():
    return {w: re.sub('[0-9]+[ab]?$', '', s) for w, s in (l.split() for l in open(HERE + '/cmavo.txt'))}


SEL = selmao()


def sel(w):
    return SEL.get(w) or ('CMENE' if w[-1] not in "aeiouy'" else 'BRIVLA')


def plain(ph):
    """quotations, zei compounds and letters with bu as one word of their selma'o"""
    for a, b in (("zoi (\\S+) .*? \\1", 'mi'), ("lo'u .*? le'u", 'mi'), ("zo [a-z']+", 'mi'), ("[a-z']+ zei [a-z']+", 'klama'), ("[.a-z']+ bu(?![a-z'])", 'by')):
        ph = re.sub(a, b, ph)
    return ph


def decide(pre, slots, post, full, work):
    """0/1 for every text pre slot1 slot2 .. post"""
    import subprocess
    h, ti = header(full); exe = '%s/earley%d' % (work, full)
    if not os.path.exists(exe):
        os.makedirs('%s/e%d' % (work, full), exist_ok=True)
        open('%s/e%d/bnf.inc' % (work, full), 'w').write(h)
        subprocess.run(['gcc', '-O2', '-w', '-I%s/e%d' % (work, full), '-o', exe, HERE + '/earley.c'], check=True)
    t = lambda ph: [ti[sel(w)] for w in plain(ph).split()]
    L = lambda v: [len(v)] + v
    d = L(t(pre)) + [len(slots)] + sum(([len(s)] + sum((L(t(x)) for x in s), []) for s in slots), []) + L(t(post))
    return subprocess.run([exe], input=' '.join(map(str, d)), capture_output=True, text=True, check=True).stdout.strip()
