"""The jobs (symbolic runs) that decide each property."""
import os, re
from vk import Job
from cbmc import CbmcJob
PROPS = {}
COMMON = ['stdio, memory allocation and the string functions behave as modelled in engine/sxlibc.c (C library semantics)',
          'clang-18 -O1 translates the sources faithfully to LLVM IR; counterexamples are re-run on a gcc build before they are reported']


def prop(pid, bounds, jobs, assumptions=()):
    PROPS[pid] = dict(bounds=bounds, jobs=jobs, assumptions=COMMON + list(assumptions))


JBO = ['jbofihe']
prop('C01', 'texts of up to 4 (quick) / 5 (thorough) slots, each slot any of 17 words or quotations incl. si, sa, su, zo, zoi, la\'o, lo\'u..le\'u', [
    Job('erasure', 'erasure.c', JBO, defs=['-DK=4'], time=(120, 120)),
    Job('erasure-few', 'erasure.c', JBO, defs=['-DK=7', '-DFEW=2,16,9,11,12'], time=(120, 120)),
    Job('erasure5', 'erasure.c', JBO, defs=['-DK=5'], time=(1, 1500), tiers=('thorough',)),
])
ONE = [('jbofihe', 'one', [], []), ('jbofihe', 'two', [], [])]
prop('C03', 'raw texts with 5-6 arbitrary characters out of separators, comment brackets, digits, colon and letters before, between and after known words', [
    Job('pos-prefix', 'lexpos.c', JBO, defs=['-DMODE=0', '-DK=5', '-DALPHA="an \\n\\t.()>5:"'], time=(60, 60)),
    Job('pos-prefix7', 'lexpos.c', JBO, defs=['-DMODE=0', '-DK=7', '-DALPHA="an \\n\\t.()>5:"'], time=(60, 900), tiers=('thorough',)),
    Job('pos-syntax', 'lexpos.c', JBO, defs=['-DMODE=1', '-DNA=3', '-DNB=3', '-DNC=3'], time=(60, 600)),
    Job('pos-compound', 'lexpos.c', JBO, defs=['-DMODE=2'], time=(60, 60)),
    Job('pos-name', 'lexpos.c', JBO, defs=['-DMODE=3'], time=(60, 60)),
    Job('norm', 'lexnorm.c', ONE, defs=['-DK=4', '-DHEAD="mi "', '-DTAIL=" klama\\n"', '-DALPHA="a \\n\\t.()>1357:io\'"'], time=(90, 90)),
    Job('norm-digits', 'lexnorm.c', ONE, defs=['-DK=3', '-DHEAD="li "', '-DTAIL=" du do\\n"', '-DALPHA="0123456789: .("'], time=(90, 90)),
    Job('norm6', 'lexnorm.c', ONE, defs=['-DK=6', '-DHEAD="mi "', '-DTAIL=" klama\\n"', '-DALPHA="a \\n\\t.()>15:io"'], time=(60, 900), tiers=('thorough',)),
])
prop('C02', 'texts of 4 (quick) / 5 (thorough) slots of words, zo, lo\'u, le\'u, zei, bu, si and zoi quotations; zoi bodies of 6/8 arbitrary characters out of 8', [
    Job('quote', 'quote.c', JBO, defs=['-DK=5'], time=(90, 90)),
    Job('quote6', 'quote.c', JBO, defs=['-DK=6'], time=(90, 900), tiers=('thorough',)),
    Job('zoi', 'zoi.c', JBO, defs=['-DK=5'], time=(90, 90)),
    Job('zoi-raw', 'zoi.c', JBO, defs=['-DK=5', '-DALPHA="x5:(>) ."'], time=(90, 90)),
    Job('zoi7', 'zoi.c', JBO, defs=['-DK=7'], time=(90, 900), tiers=('thorough',)),
])
SUMTI = '"mi","do ui","le gerku ku","la .djan.","lu mi klama li\'u","zo mi","li pa su\'i re lo\'o","lo ba\'e mlatu noi melbi ku\'o ku","mi e do","le se klama be do bei mi be\'o ku","ti poi melbi ku\'o zi\'e noi xunre ku\'o","mi joi ke do e ti ke\'e","pa lo gerku ku","by boi cy boi","ge mi gi do","na\'e bo mi lu\'u"'
SELBRI = '"klama","melbi klama","klama je cadzu","se klama","na\'e klama","nu mi klama kei","klama co melbi","ke melbi klama ke\'e","klama gi\'e cadzu","klama bo cadzu","jai ca klama","me mi me\'u","go\'i ra\'o","pa moi","gu\'e klama gi cadzu","melbi je nai klama cadzu"'
PRE = '"cu","cu na","na","pu","cu pu na","ca\'o ui nai","ba\'e ka\'e","pu je ba"'
TAIL = '"","vau","vau i mi klama","ni\'o do cadzu","i ba bo mi klama","i je do bajra","i ui do sutra","i je pu bo do cadzu","i to mi klama toi do cadzu","fi\'o djica fe\'u do"'
PREF = '"","ui","i","ni\'o","e\'o do","coi la .djan. do\'u","pu ku","to mi klama toi","ni\'o ni\'o","i nai"'.replace(',"i nai"', '')
IND = '"ui","ui nai","ui cai","ui nai ru\'e","ui pei","ui sai nai","oi cu\'i","fu\'e ui","y","da\'o","ba\'e ui","ui ie","cai"'
QUOT = '"zo mi","lo\'u mi le le\'u","zoi .x. mi .x.","la\'o .x. mi do .x.","a bu","zo lo\'u","lo\'u si mi le\'u"'
ZEI = '"klama zei do","a zei klama zei mi"'


# words of the same grammatical class and length: they share paths, so that a path covers many texts
SAMECLASS = [['mi', 'do', 'ko'], ['ti', 'ta'], ['da', 'de'], ['klama', 'drata', 'slaka'], ['melbi', 'pelji', 'degji'], ['cadzu', 'lacpu', 'jaspu'], ['gerku', 'certu', 'lerfu'], ['zarci', 'darsi', 'marji'], ['sutra', 'cumla', 'gutra'],
             ['jimpe', 'bifce', 'milxe'], ['mlatu', 'bratu', 'gradu'], ['xunre', 'bunre'], ['bajra', 'badna'], ['masno', 'fapro'], ['le', 'lo'], ['ui', 'ua'], ['pu', 'ba'], ['e', 'a', 'o'], ['je', 'ja', 'jo'], ['pa', 're', 'ci'], ['se', 'te', 've'], ['cy', 'dy'], ['by', 'fy'], ["su'i", "pi'i"], ['ka', 'ni']]
NEXTW = {w: c[(i + 1) % len(c)] for c in SAMECLASS for i, w in enumerate(c)}
NEXTW = {k: v for k, v in NEXTW.items()}


def widen(slot, n=2):
    rows = re.findall(r'"([^"]*)"', slot)
    out = list(rows)
    for r in rows:
        v = r
        for _ in range(n):
            v = re.sub(r"[a-z']+", lambda m: NEXTW.get(m.group(0), m.group(0)), v)
            if v not in out:
                out.append(v)
    return ','.join('"%s"' % x for x in out)


def tpl(*parts, wide=2):
    """-DTEMPLATE: strings starting with '"' are slots, others literal text"""
    return '-DTEMPLATE=' + ' '.join(('SLOT(%s)' % widen(p, wide)) if p.startswith('"') else p if p.endswith(';') else 'TEXT("%s ")' % p for p in parts)



def tplv(*parts, nv=3):
    """as tpl, every row of a slot followed by nv-1 variants of the same length made of words of the same classes"""
    def var(slot):
        out = []
        for r in re.findall(r'"([^"]*)"', slot):
            v = r
            for _ in range(nv):
                out.append(v)
                v = re.sub(r"[a-z']+", lambda m: NEXTW.get(m.group(0), m.group(0)), v)
        return ','.join('"%s"' % x for x in out)
    return '-DTEMPLATE=' + ' '.join(('SLOT(%s)' % var(p)) if p.startswith('"') else 'TEXT("%s ")' % p for p in parts)


RULES = open(os.path.dirname(os.path.abspath(__file__)) + '/rules.txt').read().split('\n')[:-1]   # one text for every form of every grammar rule
CAI = '"ui cai","ui sai","ui ru\'e","ui cu\'i","ui pei","ui cai nai","ui sai nai","ui ru\'e nai","ui nai cai","ui nai sai nai","ui nai ru\'e nai","ui nai cu\'i","ui dai","ui ro\'e cai","ui cai sai","cai nai","sai nai","ru\'e","cu\'i","dai nai","ui nai dai","ke\'u nai","ba\'a cu\'i","ui sai sai nai","li\'o"'


def rules(i, n, skip=None):
    k = (len(RULES) + n - 1) // n
    return ','.join('"%s"' % r for r in RULES[i * k:(i + 1) * k] if not skip or not re.search(skip, r))


TERMRE = r"(?<![a-z'])(be'o|boi|cu|do'u|fe'u|ge'u|ke'e|kei|ku|ku'e|ku'o|li'u|lo'o|lu'u|me'u|nu'u|se'u|te'u|toi|tu'u|vau|ve'o)(?![a-z'])"
# the rules' texts with an indicator on every terminator
RULESUI = [r for r in (re.sub(TERMRE, r"\1 ui", x) for x in RULES if re.search(TERMRE, x) and not re.search("lo'u|zoi|zei|zo |me'u moi", x)) if len(r) < 45]
VOC = '"mi","le","lu","klama","melbi","cu","na","ui","nai","be","noi","ku","li\'u","e","i","zo","nu","se","pa","boi"'
prop('C04', 'texts from templates with 3-4 independent phrase slots (16 sumti, 16 selbri, 8 prefixes, 10 continuations, 9 openings, 13 indicator strings, quotations, zei compounds) and all 3-word (thorough: 4-word) texts over a 20-word vocabulary', [
    Job('sent', 'structure.c', ONE, defs=['-DSAME', tpl(SUMTI, PRE, SELBRI)], time=(60, 300)),
    Job('tail', 'structure.c', ONE, defs=['-DSAME', tpl('mi', SELBRI, SUMTI, TAIL)], time=(60, 300)),
    Job('pref', 'structure.c', ONE, defs=['-DSAME', tpl(PREF, SUMTI, 'cu klama', TAIL)], time=(60, 300)),
    Job('ind', 'structure.c', ONE, defs=['-DSAME', tpl('mi', IND, 'klama', IND)], time=(60, 300)),
    Job('cai', 'structure.c', ONE, defs=['-DSAME', tpl('mi', CAI, 'klama', '"","ui ru\'e nai","do","ba\'e do"')], time=(60, 300)),
    Job('rules', 'structure.c', ONE, defs=['-DSAME', tpl('must=0;', '"","ui","mi","i"', rules(0, 1, "lo'u|zoi|zei|zo "), wide=0)], time=(60, 300)),
    Job('peinai', 'structure.c', ONE, defs=[tpl('mi ui pei nai cu klama')], time=(60, 60)),
    Job('peirest', 'structure.c', ONE, defs=['-DPEINAI', tpl('mi', IND, 'cu klama ui pei nai', IND)], time=(60, 60)),
    Job('quot', 'structure.c', ONE, defs=[tpl(QUOT, 'cu', ZEI, QUOT)], time=(60, 300)),
    Job('full', 'structure.c', ONE, defs=['-DTF', tpl(SUMTI, PRE, SELBRI)], time=(60, 300)),
    Job('free3', 'structure.c', ONE, defs=[tpl('must=0;', VOC, VOC, VOC)], time=(60, 300)),
    Job('free4', 'structure.c', ONE, defs=[tpl('must=0;', VOC, VOC, VOC, VOC)], time=(60, 900), tiers=('thorough',)),
    Job('all', 'structure.c', ONE, defs=['-DSAME', tpl(PREF, SUMTI, PRE, SELBRI, SUMTI)], time=(60, 900), tiers=('thorough',)),
])
THREE = [('jbofihe', 'one', [], []), ('jbofihe', 'two', [], []), ('jbofihe', 'three', [], [])]
ESUMTI = '"mi","do ui","le gerku","le gerku ku","la .djan.","lu mi klama li\'u","li pa su\'i re","lo mlatu noi melbi","lo mlatu noi melbi vau ku\'o ku","le se klama be do bei mi","le se klama be do be\'o ku","ti poi melbi zi\'e noi xunre","pa lo gerku","by cy","mi noi do klama","na\'e bo mi","lu\'a mi","li mo\'e le gerku te\'u lo\'o","li mo\'e ti","ti goi ko\'a","re do","li vei pa su\'i re ve\'o","li pa boi","le nu mi klama","le du\'u mi djuno kei"'
ESEL = '"klama","melbi klama","klama be mi","se klama be do be\'o","nu mi klama","nu mi klama kei","klama co melbi","ke melbi klama","klama gi\'e cadzu","me mi","me mi me\'u","ka ce\'u melbi","pa moi","klama je ke melbi cadzu"'
ETAIL = '"","vau","i mi klama","ni\'o do cadzu","fi le gerku","le zarci vau","i tu\'e mi klama","to mi klama","xi pa","sei mi cusku","soi do","i to do cadzu toi"'
EPRE = '"","cu","na","pu","ui","cu na"'
prop('C09', 'texts from templates with 3 phrase slots each of 14-24 phrases with and without their terminators (ku, kei, vau, be\'o, ku\'o, boi, li\'u, lo\'o, me\'u, ...), and all 3-word (thorough: 4-word) texts over an 18-word vocabulary', [
    Job('sent', 'elidable.c', THREE, defs=[tpl(ESUMTI, 'cu', ESEL, ESUMTI, wide=1)], time=(100, 600)),
    Job('tail', 'elidable.c', THREE, defs=[tpl(ESUMTI, '"cu"', ESEL, ETAIL)], time=(100, 600)),
    Job('rules1', 'elidable.c', THREE, defs=[tpl(rules(0, 2), wide=1)], time=(60, 600)),
    Job('rules2', 'elidable.c', THREE, defs=[tpl(rules(1, 2), wide=1)], time=(60, 600)),
    Job('rules+', 'elidable.c', THREE, defs=[tpl('must=0;', rules(0, 1), ETAIL, wide=0)], time=(100, 900)),
    Job('drop1', 'elidable.c', THREE, defs=['-DDROP', tpl('must=0;', rules(0, 2), wide=0)], time=(60, 600)),
    Job('drop2', 'elidable.c', THREE, defs=['-DDROP', tpl('must=0;', rules(1, 2), wide=0)], time=(60, 600)),
    Job('free3', 'elidable.c', THREE, defs=[tpl('must=0;', VOC, VOC, VOC)], time=(60, 300)),
    Job('free4', 'elidable.c', THREE, defs=[tpl('must=0;', VOC, VOC, VOC, VOC)], time=(60, 900), tiers=('thorough',)),
])

def pats(*ps):
    return [['-DN=%d' % len(p), '-DPAT="%s"' % p] for p in ps]


def split(n, depth):
    """all strings of n letters, split by the classes (consonant, vowel, y or ') of the first letters"""
    ps = ['']
    for _ in range(depth):
        ps = [p + q for p in ps for q in 'CVx']
    return [['-DN=%d' % n, '-DPAT="%s"' % p] for p in ps]


def T(*parts):
    return '-DTEMPLATE=' + ' '.join(parts)


MT = dict(sources=['morf.c', 'morf_dfa.c'], tables={'morf_next_state': ['morf_dfa.c']}, edit={'morf.c': [('65536', '64')]})
prop('C10', 'all strings of 1-4 letters, and all strings of 16 consonant/vowel patterns of 4-9 letters (lujvo with and without hyphens, tosmabru, slinku\'i, gismu, prefixed gismu); thorough: all strings of up to 6 letters. Capitals and commas: all words of 1-3 letters; foreign characters: any bytes in words of 2 letters', [
    CbmcJob('words-4', 'morph.c', cases=split(1, 0) + split(2, 0) + split(3, 0) + split(4, 1), **MT),
    CbmcJob('lujvo', 'morph.c', cases=pats('CVCxCVCCV', 'CVCCVCCV', 'CCVCxCCV', 'CVCCxCCV', 'CVxVCCCV', 'CVCxCCV', 'CVxVCCV', 'CVVCCVV', 'CCVCCVV', 'CVCCVV', 'CVCCCV', 'CVVCCV', 'CVCVCCV', 'CVCCV', 'CCVCV', 'VCCV'), reach=[['-DN=6', '-DREACH']], **MT),
    CbmcJob('capitals', 'morph2.c', cases=[['-DN=%d' % n] for n in (1, 2)] + pats('CVC', 'CVV', 'CVxV'), **MT),
    CbmcJob('foreign', 'morph2.c', cases=[['-DN=2', '-DFOREIGN']], **MT),
    CbmcJob('capitals5', 'morph2.c', cases=split(3, 2) + split(4, 2) + pats('CVCCVV', 'CVCCV', 'CCVCCV', 'VCCV', 'CCVCV') + [['-DN=3', '-DFOREIGN'], ['-DN=4', '-DFOREIGN']], tiers=('thorough',), **MT),
    CbmcJob('words-5', 'morph.c', cases=split(5, 2), tiers=('thorough',), **MT),
    CbmcJob('words-6', 'morph.c', cases=split(6, 3), tiers=('thorough',), **MT),
])
prop('C11', 'la/lai/doi detection: all well formed names of 1-9 (thorough: 16) letters, any capitals; break up and keeping in the whole program: names with 4-5 symbolic letters around la, lai, doi', [
    CbmcJob('ladoi', 'ladoi.c', ['bccheck.c'], cases=[['-DN=%d' % n] for n in range(1, 10)], reach=[['-DN=6', '-DREACH']], tables={'bad_cmene_next_state': ['bccheck.c']}, flags=['--bounds-check', '--pointer-check']),
    Job('split', 'equiv.c', ONE, defs=[T('BOTH("mi tavla ")', 'CH("bklm")', 'CH("aeo")', 'B(" ")', 'ROWS({"la","la"},{"lai","lai"},{"doi","doi"})', 'B(" ")', 'CH("bdsr")', 'CH("aiu")', 'CH("nrk")')], time=(60, 300)),
    Job('split0', 'equiv.c', ONE, defs=[T('BOTH("coi ")', 'ROWS({"la","la "},{"lai","lai "},{"doi","doi "},{"mila","mi la "},{"do\'adoi","do\'a doi "},{"alai","a lai "})', 'CH("bdmp")', 'CH("aiu")', 'CH("nr,\'")', 'CH("dskla")')], time=(60, 300)),
    Job('keep', 'equiv.c', ONE, defs=['-DFOLD', '-DMUST=1', T('BOTH("mi viska la .")', 'UPA("bkm")', 'A("l") B("l")', 'UPA("aeu")', 'UPA("dps")', 'UPA("ao")', 'UPA("nrk")', 'BOTH(".")')], time=(60, 300)),
    Job('split-all', 'equiv.c', ONE, defs=[T('BOTH("mi tavla ")', 'CH("bdklmst")', 'CH("aeiou")', 'B(" ")', 'ROWS({"la","la"},{"lai","lai"},{"doi","doi"})', 'B(" ")', 'CH("bdfgkmprst")', 'CH("aeiou")', 'CH("nrsldkt")')], time=(60, 900), tiers=('thorough',)),
    CbmcJob('ladoi14', 'ladoi.c', ['bccheck.c'], cases=[['-DN=%d' % n] for n in range(10, 17)], tables={'bad_cmene_next_state': ['bccheck.c']}, flags=['--bounds-check', '--pointer-check'], tiers=('thorough',)),
])


def ltab(nt):
    def f(tree):
        import lujvotab
        lujvotab.small(tree, 'jvo_small%d.c' % nt, ','.join(['1'] * nt + ['0'] * nt), ','.join(map(str, list(range(nt)) + [0] * nt)), ','.join('sx_wrd[%d]' % i for i in range(2 * nt)), ','.join('sx_raf[%d]' % i for i in range(nt)))
    return f


LU = lambda nt: ['jvo_small%d.c' % nt, 'lujvofns.c']
prop('C12', 'two components of every rafsi shape (all consonants, all vowels), three components', [
    Job('two', 'lujvo.c', LU(2), defs=['-DNT=2'], pre=ltab(2), time=(120, 600)),
    Job('three', 'lujvo.c', LU(3), defs=['-DNT=3', '-DCON="cdjknrtxz"', '-DVOW="a"'], pre=ltab(3), time=(120, 600)),
    Job('four', 'lujvo.c', LU(4), defs=['-DNT=4', '-DFIRST1=0', '-DCON="cnrt"', '-DVOW="a"'], pre=ltab(4), time=(120, 600)),
    Job('three-all', 'lujvo.c', LU(3), defs=['-DNT=3'], pre=ltab(3), time=(1, 2500), tiers=('thorough',)),
])


def ltab2(tree):
    import lujvotab
    lujvotab.small(tree, 'jvo_small.c', '3,2,0,0,1,3', '0,3,5,5,5,6', ','.join('sx_wrd[%d]' % i for i in range(6)), ','.join('sx_raf[%d]' % i for i in range(9)))
    t = tree.src
    lujvotab.put(t + '/jvo_all.c', '#include "jvo_small.c"\n#include "lujvofns.c"\n')


LL = [('jvo_all.c', 'one', [], []), ('jvo_all.c', 'two', [], [])]
prop('C13', 'lists for two and three words out of six with 0-3 rafsi each, all combinations of the options', [
    Job('list', 'lujvolist.c', LL, defs=['-DNT=2'], pre=ltab2, time=(120, 600)),
    Job('args', 'lujvoarg.c', ['jvo_all.c'], pre=ltab2, time=(60, 60)),
    Job('list3', 'lujvolist.c', LL, defs=['-DNT=3'], pre=ltab2, time=(120, 600)),
])
FSUMTI = '"mi","le gerku ku","le gerku poi melbi vau ku\'o ku","le se klama be do be\'o ku","li pa boi lo\'o","le nu mi klama vau kei ku","lu mi klama vau li\'u","mi noi do klama vau ku\'o","na\'e bo mi lu\'u","li vei pa boi su\'i re boi ve\'o lo\'o","ti goi ko\'a ge\'u","li mo\'e mi te\'u lo\'o","re boi do","pa boi lo gerku ku","by cy boi","lo mlatu ku poi melbi ku\'o zi\'e noi xunre ku\'o","lo gerku ku e do","la .djan.","lu\'a do lu\'u","mi ui","le ke melbi ke\'e gerku ku","lo nu melbi kei be do be\'o ku"'
FSEL = '"klama","klama be mi be\'o","nu mi klama vau kei","ke melbi klama ke\'e","me mi me\'u","klama vau gi\'e cadzu","pa moi","klama je ke melbi cadzu ke\'e","klama co melbi be do bei ti be\'o"'
FTAIL = '"","vau","vau i mi cu klama vau","vau to mi klama vau toi","vau xi pa boi","sei mi cusku se\'u","soi do se\'u","fi\'o djica fe\'u do vau","doi do do\'u vau","vau i tu\'e mi klama vau tu\'u"'
prop('C25', 'texts from templates with 2-4 slots (22 sumti, 9 selbri, 11 endings) with all terminators written out; every report, pattern and unreported terminator is tried', [
    Job('sent', 'elidesafe.c', THREE, defs=['-DNV=3', tplv(FSUMTI, '"","cu"', FSEL)], time=(100, 600)),
    Job('tail', 'elidesafe.c', THREE, defs=['-DNV=3', tplv('mi', 'cu', FSEL, FSUMTI)], time=(100, 600)),
    Job('free', 'elidesafe.c', THREE, defs=['-DFREE', tpl(*['"mi","le","klama","cu","nu","ku","kei","vau","be","be\'o","poi","ku\'o","i","gi\'e"'] * 4, wide=0)], time=(100, 600)),
    Job('rules', 'elidesafe.c', THREE, keep=True, defs=['-DNV=3', '-DMAY', tplv(rules(0, 1, "me'u moi"), '"","vau","do do\'u","sei mi cusku se\'u"')], time=(100, 600)),
    Job('ui', 'elidesafe.c', THREE, defs=['-DNV=3', '-DMAY', tplv(','.join('"%s"' % r for r in RULESUI + ["le gerku ku ui cu klama", "coi la djan do'u ui mi klama", "mi klama vau ui", "mi to do toi ui klama", "sei mi cusku se'u ui mi klama", "le nu mi klama kei ui cu melbi", "mi klama be do be'o ui ti"]), '"","do","vau ui"')], time=(100, 600)),
    Job('meumoi', 'elidesafe.c', THREE, defs=['-DNV=3', tplv("mi me do me'u moi")], time=(100, 600)),
    Job('sent2', 'elidesafe.c', THREE, defs=['-DNV=3', tplv(FSUMTI, FSEL, FTAIL)], time=(100, 600)),
    Job('free5', 'elidesafe.c', THREE, defs=['-DFREE', tpl(*['"mi","le","klama","cu","nu","ku","kei","vau","be","be\'o","poi","ku\'o"'] * 5, wide=0)], time=(1, 900), tiers=('thorough',)),
    Job('num', 'elidesafe.c', THREE, defs=['-DNV=2', '-DSOUND', '-DMAY', tplv('"li pa boi","li by boi","mi klama xi pa boi","re boi","pa mai boi","pa boi lo gerku ku","by boi","li vei pa boi ve\'o","li pa boi su\'i re boi","pa boi cy boi","mi klama fi\'o djica fe\'u pa boi","lo pa boi gerku ku","pa boi do e re boi"', '"","lo\'o","ku","cu","vau","ve\'o lo\'o","boi"', '"pa mai klama","re moi","klama xi by boi","re boi do cu klama","pa re ci","by cy","pa roi klama","re roi ku klama","li re du","du li pa boi","melbi","i mi klama","xi re boi klama"', nv=2)], time=(100, 600)),
    Job('byroi', 'elidesafe.c', THREE, defs=['-DNV=2', tplv("by boi pa roi klama")], time=(100, 600)),
])
prop('C17', 'texts from templates of sumti, selbri, tails (all grammar rules), quotations with arbitrary characters, glosses with arbitrary characters out of "a&<>_ %#^{}"', [
    Job('sent', 'drivers.c', THREE, defs=['-DMUST', '-DGLOSS="a#"', tpl(SUMTI, SELBRI, wide=1)], time=(60, 600)),
    Job('gloss', 'drivers.c', THREE, defs=['-DMUST', T('TEXT("le melbi gerku cu klama do i ui mi melbi")')], time=(60, 600)),
    Job('rules', 'drivers.c', THREE, defs=['-DGLOSS="a#"', tpl(rules(0, 1), wide=0)], time=(60, 600)),
    Job('zoi', 'drivers.c', THREE, defs=['-DMUST', '-DGLOSS="a"', T('TEXT("mi klama zoi .x. ")', 'CH("a&<>_%#^{}$~5\\\\")', 'CH("a&<>_%#^{}$~5\\\\ ")', 'TEXT(" .x. ui")')], time=(60, 600)),
    Job('zoi4', 'drivers.c', THREE, defs=['-DMUST', '-DGLOSS="a"', T('TEXT("mi klama zoi .x. ")', 'CH("a&<>_%#^{}$~5\\\\")', 'CH("a&<>_%#^{}$~5\\\\ ")', 'CH("a&<>_%#^{}$~5\\\\ ")', 'TEXT(" .x. ui")')], time=(60, 900), tiers=('thorough',)),
    Job('sent-gloss', 'drivers.c', THREE, defs=['-DMUST', tpl(SUMTI, SELBRI, wide=1)], time=(100, 900), tiers=('thorough',)),
])
ALLOPT = '"-x","-b","-t","-tf -k","-H","-l -b","-x -b","-ie -b","-re","-se","-bt"'
LONGS = [('name', 'TEXT("la .") REP("", "d", "da", "r") TEXT("n. cu klama")'), ('zoi', 'TEXT("mi cusku zoi .x. ") REP("", "a", "& ", "\\\\") TEXT(" .x. ui")'), ('zo', 'TEXT("zo ") REP("", "la", "d") TEXT("n. cu cmene")'), ('lohu', 'TEXT("lo\'u ") REP(" ", "mi", "ui nai") TEXT(" le\'u cu melbi")'),
         ('zei', 'TEXT("mi ") REP(" zei ", "klama", "zmadu", "se", "by", "a") TEXT(" zei cadzu do")'), ('bu', 'REP(" ", "a", "ui", "klama") TEXT(" bu cu klama")'), ('fuivla', 'TEXT("mi bang") REP("", "r", "rko", "ku") TEXT("rea do")')]
prop('C19', 'any bytes (3) in a text; every phrase of 40 repeated up to 70 times; words and quotations of up to 1100 letters; all options', [
    Job('bytes', 'robust.c', JBO, defs=['-DOPTS="-x","-t -k","-bt"', T('TEXT("mi")', 'ANY', 'ANY', 'TEXT("klama")')], time=(60, 600)),
    Job('repeat', 'robust.c', JBO, defs=['-DOPTS=' + ALLOPT, '-DCOUNTS=1,2,22,40', T('TEXT("mi klama ")', 'REP(" ", "do", "fa do", "bau do", "gi\'e klama", "be do bei mi be\'o", "i do", "ui nai", "si", "zo do", "pa", "su\'i", "to mi toi", "poi melbi ku\'o", "ku", "nu mi", "le", "se", "jai", "na", "lu mi", "e do", "je", "ke", "ke\'e", "y", "xi pa", "ni\'o", "ba\'e", "fu\'e", "pu", "sa", "su", "ge do gi", "ce\'e do", "nu\'i", "by", "a bu", "zei", "lo\'u", "le\'u", "vei", "goi do", "co", "doi", "sei mi cusku")')], time=(100, 900)),
] + [Job('long-' + n, 'robust.c', JBO, defs=['-DOPTS=' + ALLOPT, '-DCOUNTS=1,31,33,255,600', '-DTEMPLATE=' + t], time=(60, 600)) for n, t in LONGS] + [
    Job('gloss', 'robust.c', JBO, defs=['-DOPTS="-x"', '-DGLOSS=3', '-DGLOSSSET="aeshyz;@%DAPIx1*"', '-DDICT={"*0zmadu1","???"},{"*5se2","???"},{"klama","???"},{"klama1","???"},{"klama1n","???"},{"klama2","???"},{"melbi1q","???"}', T('TEXT("mi ")', 'ONEOF("klama","se klama","cu zmadu zei klama","klama zmadu klama","selklama le melbi ku")', 'TEXT(" le klama be do")')], time=(60, 600)),
    Job('redirect', 'robust.c', JBO, defs=['-DOPTS="-x"', '-DDIGITS', '-DDICT={"*0zmadu1","@0"},{"klama1","@klama0"},{"klama2","@klama0"},{"klama3","A;@klama0"},{"klama4","@zei0"}', T('TEXT("mi ")', 'ONEOF("klama","cu zmadu zei klama","klama zei zmadu")', 'TEXT(" le klama be do")')], time=(60, 600)),
    Job('cmafihe', 'robust.c', ['cmafihe'], defs=['-DOPTS="-l","-b -w 20","-w 5"', T('TEXT("mi")', 'ANY', 'ANY', 'TEXT("klama")')], time=(60, 600)),
    Job('long-cmafihe', 'robust.c', ['cmafihe'], defs=['-DOPTS="-l","-b -w 20","-w 5"', '-DCOUNTS=1,31,33,255,600', '-DTEMPLATE=TEXT("mi ") REP("", "a", "ka", "r", "a\'", " mi", ",", "zei ", "zo ", ".") TEXT("n zoi klama mi n. klama")'], time=(60, 600)),
    Job('jvocuhadju', 'robust.c', ['jvocuhadju'], defs=['-DOPTS="","-l"', '-DARGS=2', '-DARGSET="klam-1\'y."', T('TEXT("")')], time=(60, 600)),
    Job('count-jvocuhadju', 'robust.c', ['jvocuhadju'], defs=['-DOPTS="","-b -a"', '-DCOUNTS=1,2,3,8,31,32,33,47,48,49,50,51,52,64,99', '-DWORDARGS="bajra","brodi","le","xyz","klamaklama"', T('TEXT("")')], time=(60, 600)),
    Job('limit-jvocuhadju', 'robust.c', ['jvocuhadju'], max_inst=20000000000, defs=['-DOPTS="-l"', '-DCOUNTS=17', '-DWORDARGS="bajra"', T('TEXT("")')], tiers=('thorough',), time=(100, 800)),
    Job('args', 'robust.c', JBO, defs=['-DOPTS=""', '-DARGS=2', '-DARGSET="-wxbtlHkiesrcvhdgm?19"', T('TEXT("mi klama")')], time=(60, 600)),
    Job('args-cmafihe', 'robust.c', ['cmafihe'], defs=['-DOPTS=""', '-DARGS=2', '-DARGSET="-wxbtlHkiesrcvhdgm?19"', T('TEXT("mi klama")')], time=(60, 600)),
    Job('args-vlatai', 'robust.c', ['vlatai'], defs=['-DOPTS=""', '-DARGS=1', '-DARGSET="-wxbtlHkiesrcvhdgm?19"', T('TEXT("mi klama")')], time=(60, 600)),
])
CME = '{"%bau","language",0},{"%ger","dog",0},{"%gri","group",3},{"%soi","soldier",0},{"%zda","nest",0},{"+e","A1",0},{"+i","I",0},{"+ije","JEK",1},{"+je","JA",0},{"+le","LE",0},{"+lenu","LEKI",2},{"+mi","KOhA3",0},{"+nu","NU",0},{"+ui","UI1",0},{"e","and",0},{"gerku2","D;dog breed*",3},{"i","(.)",0},{"ije","and then",1},{"je","also",0},{"klama","come",0},{"klama3","D;origin",0},{"klama4","D;way* to/by*",0},{"le","the",0},{"lenu","event of the",2},{"mi","I, me",0},{"nu","event",0},{"ui","joy",0}'
CMR = ['{\'c\',"mi"},{\'c\',".i"},{\'c\',"lenu"},{\'b\',"klama"},{\'b\',"gerzda","ger|zda"},{\'n\',"djan."},{\'p\',"\\n\\n"}',
       '{\'c\',".ije"},{\'c\',".i.ui"},{\'c\',"lenumi"},{\'c\',"lejenu"},{\'c\',"ca"},{\'c\',"lecami"},{\'c\',"mi.e"},{\'c\',".uinu.i.e"},{\'c\',"cacale"}',
       '{\'b\',"selgerku","sel|gerku"},{\'b\',"terklama","ter|klama"},{\'b\',"velklama","vel|klama"},{\'b\',"selgerzda","sel|ger|zda"},{\'b\',"soirgerku","soi|gerku"},{\'b\',"baugri","bau|gri"},{\'b\',"xelzdagri","xel|zda|gri"},{\'b\',"gerku","gerku"},{\'b\',"gerselklama","ger|sel|klama"},{\'b\',"gerterzda","ger|ter|zda"},{\'b\',"soinrirgri","soi|rir|gri"}']
CML = '{"+le","LE",0},{"+le\'e","LEhE",0},{"+lei","LEI",0},{"+leile","X",1},{"+lemi\'e","Y",2},{"+li","LI",0},{"+mi","KOhA",0},{"+milile","Z",3},{"le","the",0},{"le\'e","the typical",0},{"lei","the mass",0},{"leile","x",1},{"lemi\'e","y",2},{"li","number",0},{"mi","I",0},{"milile","z",3}'
def cmj(name, row, n, modes, **kw): return Job(name, 'cm.c', ['cmafihe'], defs=['-DENTRIES=' + CME, '-DROWS=' + CMR[row], '-DNWORDS=%d' % n, '-DMODES=%d' % modes], **kw)
prop('C16', 'texts of 3 words and paragraph breaks in all kinds of output and widths 1 to 80; compounds of up to 4 cmavo with and without entries; lujvo of up to 3 rafsi with se, te, ve, xe', [
    cmj('words', 0, 3, 9, time=(60, 600)), cmj('compounds', 1, 2, 3, time=(60, 600)), cmj('lujvo', 2, 2, 3, time=(60, 600)),
    Job('letters', 'cm.c', ['cmafihe'], defs=['-DENTRIES=' + CML, '-DROWS=' + CMR[0], '-DNWORDS=0', '-DMODES=1', '-DSYLL=3'], time=(60, 600)),
    Job('letters4', 'cm.c', ['cmafihe'], defs=['-DENTRIES=' + CML, '-DROWS=' + CMR[0], '-DNWORDS=0', '-DMODES=1', '-DSYLL=4'], tiers=('thorough',), time=(60, 800)), cmj('more', 0, 4, 9, tiers=('thorough',), time=(60, 800)),
])
CN = {'after': ['mi Eb? do klama', 'mi klama le melbi be do Eb? di', 'mi melbi Jb? cmalu', 'le melbi Jb? cmalu cu klama', 'mi klama HB cadzu do', 'mi klama .i JT do cadzu', 'mi Eb? do zo\'u da klama', 'doi mi Eb? do'],
      'fore': ['mi klama G do / di', 'G mi klama / do cadzu', 'mi G klama do / cadzu di vau ti', 'mi U melbi / cmalu', 'le U melbi be do be\'o / cmalu cu cadzu', 'mi klama bau G do / di', 'na G mi klama / do cadzu', 'G mi zo\'u do klama / da cadzu'],
      'place': ['mi pu J ba klama', 'mi bau J ba do klama', 'mi ce\'e do pe\'e J ti ce\'e ta klama', 'le nu J du\'u mi klama cu melbi', 'li pa su\'i J pi\'i re cu melbi', 'mi pa moi J re moi', 'mi klama .i J ba do cadzu', 'li re E bo ci cu melbi', 'li re su\'i vei G re / ci ve\'o cu melbi', 'li re U su\'i / vu\'u ci cu melbi'],
      'two': ['mi E do E di klama', 'mi klama G do E di / da', 'mi melbi J cmalu J bo klama', 'mi klama H cadzu H bo melbi', 'G mi / G do / di klama', 'G G mi / do / di klama', 'mi U melbi J cmalu / klama', 'mi pu J ba do E di klama', 'mi klama H G cadzu / melbi', 'mi klama .i J G do / di cadzu']}
prop('C07', 'every logical connective with na, se and nai and every question, in 27 places of a text; two connectives in 10 arrangements', [
    Job('connectives-' + n, 'connect.c', JBO, defs=['-DFORMSET=' + ','.join('"%s "' % x for x in v)], time=(60, 600)) for n, v in CN.items()
] + [Job('connectives-three', 'connect.c', JBO, defs=['-DFORMSET="G mi / G do / G di / da klama ","G G do / G di / da / mi klama ","mi U melbi J cmalu / klama H cadzu "'], tiers=('thorough',), time=(60, 800))])
BW = '-DWIDTHS=5,20,33,79'
prop('C18', 'texts from the templates of sumti, selbri, tails and paragraphs, all grammar rules, widths 5 to 79', [
    Job('sent', 'block.c', THREE, defs=['-DLENS=2', BW, tpl(SUMTI, SELBRI, wide=1)], time=(60, 600)),
    Job('paragraphs', 'block.c', THREE, defs=['-DLENS=1', BW, T('TEXT("mi klama ")', 'SLOT("","ui","zo do","la djan","le gerku")', 'TEXT("\\n\\n")', 'SLOT("","i","ni\'o","i ui","gi\'e klama","le klama")', 'TEXT("\\n\\n\\n")', 'SLOT("","do","i do","bau do")')], time=(60, 600)),
    Job('labels', 'block.c', THREE, defs=['-DLENS=3', BW, T('SLOT("mi","le gerku ku","")', 'SLOT("klama je cadzu","klama je cadzu je melbi","melbi je klama je cadzu","cadzu je melbi je klama","cadzu je melbi je blanu je klama je barda")', 'SLOT("","do","le gerku ku do")', 'SLOT("","i do cadzu","vau")')], time=(60, 600)),
    Job('rules', 'block.c', THREE, defs=['-DLENS=1', '-DWIDTHS=20', tpl(rules(0, 1), wide=0)], time=(60, 600)),
])
SMU = [('smujajgau', 'one', [], []), ('smujajgau', 'two', [], []), ('cmafihe', 'dl', [], ['dict_lookup'])]
DKEY = 'WORDS("klama","soirsai","selma\'o","cmavo","bavlamfi\'e","ba\'e","sonci+sanmi","se+cmavo") WORDS("","1","2","1n","1q","2t","n")'
DLINE = DKEY + ' TEXT(":") CH("xyA") TEXT("\\n")'
def raw(n, a): return ' '.join('CH("%s")' % a for _ in range(n))
prop('C15', 'sources of up to 8 arbitrary characters (3 arbitrary bytes), up to 3 definitions of words and lujvo with all endings, keys and translations of up to 300 letters, 30 entries in any order, two sources, updates', [
    Job('raw', 'dictc.c', SMU, defs=['-DTEMPLATE=' + raw(7, 'ab1n: #\\n')], time=(90, 600)),
    Job('raw-more', 'dictc.c', SMU, defs=['-DTEMPLATE=TEXT("k1:a\\nk1n:b\\nk:c\\n") ' + raw(8, 'k1nvq:;\\n')], time=(90, 600)),
    Job('bytes', 'dictc.c', SMU, defs=['-DTEMPLATE=TEXT("k") ANY TEXT(":") ANY ANY TEXT("\\nk2:v")'], time=(90, 600)),
    Job('words', 'dictc.c', SMU, defs=['-DTEMPLATE=' + DLINE + DLINE + DLINE], time=(90, 600)),
    Job('long', 'dictc.c', SMU, defs=['-DML=400', '-DLENS=1,2,127,128,253,254,255,256,257,300', '-DTEMPLATE=TEXT("ka1:x\\nk") RUN(\'a\') CH("1n") TEXT(":v") RUN(\'b\') TEXT("\\nz:y\\n")'], time=(60, 600)),
    Job('many', 'dictc.c', SMU, defs=['-DNE=256', '-DML=16', '-DTEMPLATE=' + ' '.join('TEXT("%s%d:%d\\n")' % (chr(97 + (7 * i) % 26), i, i) for i in range(30)) + ' CH("abcnoyz") CH("0123456789") TEXT(":s\\n") CH("abcz") CH("0129") TEXT(":t\\n")'], time=(60, 600)),
    Job('files', 'dictc.c', SMU, defs=['-DTEMPLATE=' + DLINE, '-DTEMPLATE2=' + DLINE], time=(60, 600)),
    Job('update', 'dictc.c', SMU, defs=['-DUPDATE', '-DTEMPLATE=' + DLINE, '-DTEMPLATE2=' + DLINE], time=(60, 600)),
])
prop('C20', 'entries of all classes and places 1-5 with a text of up to 5 arbitrary characters out of "esychat /*", noun and explicit forms, redirections; patterns at two precedences; lujvo of two components', [
    Job('forms', 'gloss.c', JBO, defs=['-DGL=3'], time=(100, 600)),
    Job('text', 'gloss.c', JBO, defs=['-DGL=7', '-DONLY', '-DPLACES="2"'], time=(100, 600)),
    Job('letters', 'gloss.c', JBO, defs=['-DGL=2', '-DONLY', '-DPLACES="2"', '-DGSET="abcdefghijklmnopqrstuvwxyz*"'], time=(100, 600)),
    Job('prep', 'gloss.c', JBO, defs=['-DGL=8', '-DONLY', '-DPLACES="3"', '-DGSET="* inawth"'], tiers=('thorough',), time=(1, 600)),
    Job('pattern', 'gloss.c', JBO, defs=['-DPATTERN', '-DGL=1', '-DPLACES="14"'], time=(100, 600)),
    Job('patterns', 'gloss.c', JBO, defs=['-DPATTERN', '-DGL=2'], tiers=('thorough',), time=(1, 800)),
    Job('lujvo', 'gloss.c', JBO, defs=['-DLUJVO', '-DGL=2', '-DPLACES="13"'], time=(100, 600)),
])


def wordlist(tree):
    import lujvotab
    rows = [l[:5].strip() for l in open(tree.src + '/reduced_gismu', errors='replace') if l.strip()]
    lujvotab.put(tree.src + '/words.h', ''.join('"%s",\n' % w for w in rows if re.match(r"^[a-z']+$", w)))


CAN = [('jvocuhadju', 'one', [], []), ('smujajgau', 'two', [], [])]
prop('C14', 'every word of the gismu and rafsi list (1436) as first, last and middle component, with all its rafsi, next to partners that need hyphens and partners that do not', [
    Job('letters', 'canon2.c', CAN, defs=['-DPATS="2CVCkla","2CCVkla","2CVVkla","2CV\'Vkla","2CVVrklama","2CV\'Vrkla","2CVVnro\'i","2CV\'Vnrinju","2CVCykla","2CVCCykla","2CCVCykla","2klaCCV","2klaCVV","2klaCV\'V","2salCVV","2salyCV\'V","2tonyCCV","2broCVCCV","2xagCCVCV","3klaCVCxau","3klaCVCyxau","3seryCVCCykla","3CVVrsalkla","3salCV\'Vxau","3CVCysalxau"', '-DCONS="bcdfgjklmnprstvxz"'], time=(100, 600)),
    Job('letters3', 'canon2.c', CAN, defs=['-DPATS="3CVCCVCkla","3CVVrCVCkla","3CCVCVVxau","3CVCCCVxau","4CVCCVCCVVkla","4selCVCCVVxau","3CVCyCVCCVV","3CV\'VrCVVkla"', '-DCONS="lst"'], time=(100, 600)),
    Job('letters3-all', 'canon2.c', CAN, defs=['-DPATS="3CVCCVCkla","3CVVrCVCkla","3CCVCVVxau","3CVCCCVxau","4CVCCVCCVVkla","4selCVCCVVxau","3CVCyCVCCVV","3CV\'VrCVVkla"', '-DCONS="klmst"'], tiers=('thorough',), time=(1, 800)),
    Job('first', 'canon.c', CAN, defs=['-DWPOST="klama"'], pre=wordlist, time=(60, 600)),
    Job('last', 'canon.c', CAN, defs=['-DWPRE="sutra"'], pre=wordlist, time=(60, 600)),
    Job('middle', 'canon.c', CAN, defs=['-DWPRE="se"', '-DWPOST="djuno"'], pre=wordlist, time=(60, 600)),
])
prop('C06', 'bridi with 2+3 terms of any kind (plain, fa to fi, tagged) and 3 conversions; 2 linked sumti; tanru; connected selbri; bridi tails; nested abstractions and relative clauses', [
    Job('terms', 'places.c', JBO, defs=['-DFORM=0', '-DNPRE=2', '-DNPOST=3', '-DCONVS="","1","21"'], time=(60, 600)),
    Job('many', 'places.c', JBO, defs=['-DFORM=0', '-DNPRE=1', '-DNPOST=2', '-DCONVS="","1","2","3","4","12","21","34","121","5","15","51"', '-DKINDS=0,1,2,3,4,5,6'], time=(60, 600)),
    Job('links', 'places.c', JBO, defs=['-DFORM=0', '-DNPRE=1', '-DNPOST=2', '-DNLINK=2', '-DCONVS="","1","2"', '-DKINDS=0,1,2,3'], time=(60, 600)),
    Job('tanru', 'places.c', JBO, defs=['-DFORM=1', '-DNPRE=1', '-DNPOST=2', '-DCONVS="","1"'], time=(60, 600)),
    Job('connected', 'places.c', JBO, defs=['-DFORM=2', '-DNPRE=1', '-DNPOST=2', '-DCONVS="","1","2"', '-DKINDS=0,1,2,3'], time=(60, 600)),
    Job('tails', 'places.c', JBO, defs=['-DFORM=3', '-DNPRE=2', '-DNPOST=1', '-DCONVS="","1"', '-DKINDS=0,1,2,3'], time=(60, 600)),
    Job('nested', 'places.c', JBO, defs=['-DFORM=4', '-DNPRE=1', '-DNPOST=2', '-DCONVS="","1"', '-DKINDS=0,2,3'], time=(60, 600)),
    Job('relative', 'places.c', JBO, defs=['-DFORM=5', '-DNPRE=1', '-DNPOST=2', '-DNLINK=2', '-DCONVS="","1"', '-DKINDS=0,2,3'], time=(60, 600)),
])


def cmavoframes():
    here = os.path.dirname(os.path.abspath(__file__))
    T = dict(l.split() for l in open(here + '/cmavo.txt')); cl = {}
    for w in T:
        cl.setdefault(re.sub('[0-9]+[ab]?$', '', T[w]), []).append(w)
    frm = []
    for l in open(here + '/frames.txt'):
        k, *f = l.rstrip('\n').split('|')
        frm += [(k, cl[k][0], x) for x in f if x.count('_') == 1]
    rul, seen = [], set()
    for r in RULES:
        if re.search("lo'u|zoi|la'o|zei|(?<![a-z'])(zo|bu|s[iau]|fa'o)(?![a-z'])", r):
            continue
        ws = r.split()
        for i, w in enumerate(ws):
            k = re.sub('[0-9]+[ab]?$', '', T.get(w, '')); n = len(cl.get(k, ()))
            if n > 1 and (n < 24 or (k, ws[i - 1] if i else '', ws[i + 1] if i + 1 < len(ws) else '') not in seen):
                seen.add((k, ws[i - 1] if i else '', ws[i + 1] if i + 1 < len(ws) else ''))
                rul.append((k, w, ' '.join(ws[:i] + ['_'] + ws[i + 1:])))
    return T, cl, frm, rul


def cmavo(tree):
    """the word list of C21, as C tables"""
    import lujvotab
    T, cl, frm, rul = cmavoframes(); names, mem, cls = sorted(cl), [], []
    for k in names:
        cls.append('{%d,%d},' % (len(mem), len(cl[k]))); mem += cl[k]
    fr = ['{%d,%d,"%s","%s"},' % ((names.index(k), cl[k].index(w)) + tuple(x.split('_'))) for k, w, x in frm + rul]
    for n, v in (('tab', ['{"%s","%s"},' % x for x in T.items()]), ('cls', cls), ('mem', ['"%s",' % m for m in mem]), ('fr', fr)):
        lujvotab.put(tree.src + '/cmavo%s.inc' % n, '\n'.join(v) + '\n')


NFR, NRU = [len(x) for x in cmavoframes()[2:]]
prop('C21', "every string of the form of a cmavo (V, VV, V'V, CV, CVV, CV'V, Cy, y, y'y; 1066 strings), alone and before another word; every word of each of the 43 selma'o that have several in %d places of a text" % (NFR + NRU), [
    Job('known', 'cmavo.c', JBO, defs=['-DSHAPES="V","VV","V\'V","CV","CVV","CV\'V","Cy","y","y\'y","y\'V","V\'y","Cy\'V","CV\'y"'], pre=cmavo, time=(100, 600)),
    Job('compound', 'cmavo.c', JBO, defs=['-DPOST="pa"', '-DSHAPES="V","VV","V\'V","CV","CVV","CV\'V"'], pre=cmavo, time=(100, 600)),
    Job('classes', 'cmavo.c', ONE, defs=['-DCLASSES', '-DFFR=0', '-DNFR=%d' % NFR], pre=cmavo, time=(100, 600)),
    Job('rules', 'cmavo.c', ONE, defs=['-DCLASSES', '-DFFR=%d' % NFR, '-DNFR=%d' % NRU], pre=cmavo, time=(100, 600)),
])


def gram(name, pre, slots, post, **kw):
    import bnf
    slots = [s if isinstance(s, list) else s.split() for s in slots]

    def make(tree):
        import lujvotab
        n = 1; out = ''
        for s in slots:
            n *= len(s)
        for full in (1, 0):
            b = bnf.decide(pre, slots, post, full, tree.src + '/g_' + name); assert len(b) == n
            by = [int(b[i:i + 8][::-1], 2) for i in range(0, n, 8)]
            out += 'static const unsigned char %s[] = {%s};\n' % (('OPT', 'FULL')[full], ','.join(map(str, by)))
        lujvotab.put(tree.src + '/bits_%s.inc' % name, out)
    S = ' '.join('SLOT(%s)' % ','.join('"%s"' % w for w in s) for s in slots)
    kw.setdefault('time', (100, 600))
    return Job(name, 'grammar.c', ONE, defs=['-DPRE="%s"' % pre, '-DPOST="%s"' % post, '-DSLOTS=' + S, '-DBITS="bits_%s.inc"' % name, '-DNSL=%d' % len(slots)], pre=make, **kw)


GW = "e gi'e je joi ge gu'e gi bo ke ke'e le la ku mi klama djan be bei be'o noi ku'o pe ge'u zi'e vu'o nu kei se na'e na nai pu bau fa cu vau zo'u i ni'o tu'e tu'u pa boi by lau tei foi li lo'o su'i bi'e pe'o ku'e fu'a vei ve'o mo'e ni'e na'u ma'o te'u jo'i lu'a lu'u moi nu'a jai go'i ra'o co cei ce'e pe'e nu'i nu'u lu li'u fi'o fe'u ki cu'e ca'a zi ze'a vi ne'i ve'a vi'a fe'e mo'i ta'e za'o roi bi'i ga'o sei se'u soi coi doi do'u to toi xi mai me me'u"
GS = "mi le ku klama djan na se pu be noi nu kei vau cu i e je ge gi gi'e bo ke pa boi"
GM = "li pa boi by su'i vei ve'o e je joi bo ke ke'e ge gi na'e se ma'o te'u na'u mo'e jo'i pe'o ku'e bi'e fu'a lu'a klama mi"
GT = "pu nai zi ze'a roi pa za'o vi ne'i ve'a vi'a fe'e mo'i ta'e ca'a ki cu'e na'e bau se je joi bi'i ga'o fi'o klama fe'u ku"
GX = "ku'o ku do'u se'u toi boi ve'o sei klama soi mi coi doi djan pe to xi pa mai vei i cu"
GP = ["", "e mi", "e bo mi", "joi ke mi", "ke'e", "pe mi ge'u", "zi'e noi klama vau ku'o", "vu'o noi klama vau ku'o", "ce'e mi", "pe'e je mi", "bau mi", "fa", "ku", "na ku", "to mi vau toi", "xi pa boi", "cu klama vau", "i", "i je", "i bo", "ni'o", "zo'u", "ge mi", "gi mi", "nai", "pu ku", "be mi", "be'o", "gi'e klama vau", "tu'e", "tu'u"]
GQ = ["", "je", "je bo", "joi pu ke", "ke'e", "bo", "co", "be mi", "bei mi", "be'o", "klama", "ke klama", "se", "na", "pu", "na'e", "gu'e", "gi", "nu mi", "kei", "me mi me'u", "moi", "pa moi", "gi'e", "gi'e pu bo", "gi'e ke", "cei", "vau", "mi", "jai pu", "go'i ra'o", "sei klama se'u", "i je pu bo"]
GF = ["", "pu", "ba'o nai", "je", "joi nai", "se", "ga'o", "bi'i", "na'e", "ki", "pa roi", "bau", "ge"]
GC = [["mi", "le klama ku", "mi cu klama", "mi cu klama vau", "mi cu klama vau i", "li pa boi", "li pa boi su'i", "bau", "mi pu ku", "i", "mi pu"],
      ["e nai", "na se gi'e", "gi'e nai", "je", "na se je nai", "joi", "se joi nai", "ga'o bi'i ga'o", "bi'i nai", ""], ["", "pu", "pu je ba", "bau joi nai pu", "na'e ki", "fi'o klama fe'u", "pu joi"], ["", "bo", "ke"],
      ["mi cu klama vau", "klama vau", "re boi lo'o vau", "su'i re boi lo'o vau", "klama ke'e vau", "klama vau gi'e klama vau vau ke'e vau", "mi ke'e cu klama vau", "pe'o su'i re boi ku'e lo'o vau"]]
GL = ["", "pa", "by", "a bu", "klama bu", "lau", "tei", "foi", "boi", "i", "nai"]
GLE = ["roi", "moi", "mai", "boi", "pa roi", "by moi", "xi"]
GZ = ["", "zo mi", "zo ku", "lo'u klama i le'u", "zoi gy. a text i gy.", "klama zei djan", "mi zei cadzu", "lu mi klama vau li'u", "lu", "li'u", "e", "pe", "le", "la'e", "lu'u", "na'e bo", "ku", "me", "me'u", "do"]
prop('C05', 'all texts of the templates: any two of 113 words alone and before or after a sentence; any three of 25 common words; three of 26-30 words in numbers and expressions, tenses and free modifiers; three phrases of 31-33 after a sumti or selbri; connectives with tenses, bo and ke; letters and numbers; quotations', [
    gram('two', '', [GW, GW], ''), gram('two-before', '', [GW, GW], 'mi cu klama vau'), gram('two-after', 'mi cu klama', [GW, GW], 'vau'), gram('two-inside', 'le', [GW, GW], 'klama ku cu klama vau'),
    gram('three', '', [GS, GS, GS], ''), gram('mex', 'li', [GM, GM, GM], "pa boi lo'o vau"), gram('mex-more', 'li pa boi', [GM, GM, GM], "re boi lo'o vau"),
    gram('tense', 'mi', [GT, GT, GT], 'ku cu klama vau'), gram('free', 'mi xi', [GX, GX, GX], ''), gram('free-more', 'coi', [GX, GX, GX], ''),
    gram('sumti', 'mi', [GP, GP, GP], 'cu klama vau'), gram('selbri', 'mi cu klama', [GQ, GQ, GQ], 'klama vau'),
    gram('fore', '', [GF] * 4, 'gi mi cu klama vau gi do cu klama vau vau'), gram('connect', '', GC, ''), gram('letters', 'mi', [GL, GL, GL, GLE], 'ku cu klama vau'), gram('letters-moi', 'mi cu', [GL, GL, GL, GLE], 'vau'), gram('letters-li', 'li', [GL, GL, GL, GLE], "lo'o vau"), gram('quotes', 'mi', [GZ, GZ, GZ], 'cu klama vau'),
    gram('four', '', [GS, GS, GS, GS], '', tiers=('thorough',), time=(1, 800)), gram('three-inside', 'mi cu', [GW, GW, GS], 'klama vau', tiers=('thorough',), time=(1, 800)),
])
