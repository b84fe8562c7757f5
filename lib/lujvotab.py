"""jvo_small.c: jvocuhadju.c with its word and rafsi tables replaced by the harness's symbolic ones."""
import os, re, threading
from vk import BuildError


def put(path, txt):
    """atomically, and only when the content changes"""
    if os.path.exists(path) and open(path).read() == txt:
        return
    t = '%s.%d' % (path, threading.get_ident())
    with open(t, 'w') as f:
        f.write(txt)
    os.replace(t, path)


def small(tree, out, n_raf, start, words, rafs):
    """the four big tables are recognised by what they contain"""
    txt = open(tree.src + '/jvocuhadju.c', errors='replace').read()
    seen = set()

    def sub(m):
        body = re.sub(r'/\*.*?\*/|//[^\n]*', '', m.group(2), flags=re.S)
        el = [x.strip() for x in body.split(',') if x.strip()]
        if len(el) < 500:
            return m.group(0)
        if el[0].startswith('"'):
            k = 'words' if sum(len(x) == 7 for x in el) > len(el) / 2 else 'rafs'
            v = words if k == 'words' else rafs
        else:
            k = 'n' if max(map(int, el)) < 10 else 'start'
            v = n_raf if k == 'n' else start
        seen.add(k)
        return m.group(1) + '{' + v + '}'
    txt = re.sub(r'(\w+\s*\[[^\]]*\]\s*=\s*)\{([^{}]*)\}', sub, txt)
    if seen != {'words', 'rafs', 'n', 'start'}:
        raise BuildError('jvocuhadju.c: tables not found: %s' % seen)
    txt = txt.replace('65536', '64')
    put(tree.src + '/' + out, 'extern char sx_wrd[][8], sx_raf[][8];\n' + txt)
