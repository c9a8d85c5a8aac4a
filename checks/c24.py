"""C24: platforms without regions and compile directives get them as comments, sources have them as directives."""
import os
import re

from vlib import env, gen, meta, mutate, product as P, rt
from vlib.core import Violation, case_rng
from checks import c08, c26

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='modules of ordinary forms, root modules of 8.2 processors and configurations and, as a control, modules of 8.3 '
         'products get generated texts with directives, comments that look like them and plain lines; the source must '
         'have the directives, the product the comments; then source files are edited and the product built must hold '
         'the model of the new text, and extracted again must give the sources; distinct = module texts',
    require={'old_modules': 120, 'new_modules': 40, 'directives': 300, 'edits': 80, 'distinct': 150, 'form_modules': 60,
             'root_modules': 30, 'first_line': 20},
    assumptions=['directives start their line and are #Область, #КонецОбласти, &НаКлиенте, &НаСервере (and the names '
                 'that begin so)'],
)

DIRECTIVES = ['#Область А', '#Область Служебный программный интерфейс', '#КонецОбласти', '&НаСервере', '&НаКлиенте',
              '&НаСервереБезКонтекста', '&НаКлиентеНаСервереБезКонтекста', '#КонецОбласти // А', '#Область']
MARK = '// v8unpack '
PLAIN = ['Процедура А()', 'КонецПроцедуры', '\tБ = 1; // &НаСервере', '#Если Клиент Тогда', '#КонецЕсли', '',
         '// #Область старая', '//&НаКлиенте', '// v8unpack', '// v8unpack просто слова', '\tС = "', '\t|#Область в тексте";',
         'А = Б &НаСервере', '//v8unpack #Область', 'Текст = "// v8unpack #Область";', '//  v8unpack &НаКлиенте', '"', '']


def cases(tier, seed):
    weights = dict(epf802=12, epf802n=6, cf16o=6, cf16=3, apam=2, epf803=2, cf=1)
    k = 2 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def text(rng, n, obs):
    """source text; its first lines carry a unique marker"""
    mark = f'// модуль {n} {rng.getrandbits(40):x}'
    lines = []
    for _ in range(rng.choice([rng.randint(1, 14), rng.randint(1, 14), 60, 300])):
        lines.append(rng.choice(DIRECTIVES if rng.random() < 0.5 else PLAIN))
    if rng.random() < 0.35:
        lines[0] = rng.choice(DIRECTIVES)
        obs.count('first_line')
    else:
        lines.insert(0, rng.choice(['', 'Перем Х;', '// начало']))
    lines.insert(rng.randint(1, len(lines)), mark)
    s = '\n'.join(lines) + rng.choice(['', '\n', '\n\n'])
    return mark, s


def is_directive(line):
    return line.startswith(('#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте'))


def stored(s):
    """model of the text in a product for a platform without directives"""
    return '\n'.join(MARK + x if is_directive(x) else x for x in s.split('\n'))


def prepare(kind, rng, obs):
    """-> product, {place: is it for an old platform}"""
    base = {'epf802n': 'epf802', 'cf16o': 'cf16'}.get(kind, kind)
    p = rt.defuse(P.seed(base))
    own = {}
    if base == 'epf802':
        if kind == 'epf802':
            mutate.some(p, rng, rng.choice([0, 2]), [mutate.clone, mutate.rename])
        root = meta.find_header(p.tree(meta.root_uuid(p)), None)[1][2][1]
        donor = P.seed('epf803')
        info = next(v['info'] for v in donor.main.values() if isinstance(v, dict) and 'text' in v)
        if f'{root}.0' in p.main:
            raise Violation('harness', 'the sample has a module already')
        new = type(p.main[mutate.modules(p)[0][0]])()
        new['info'], new['text'] = info, b''
        p.main[f'{root}.0'] = new
        own = {(f'{root}.0', 'text'): True}
        if kind == 'epf802n':
            p.main['version'] = b'\xef\xbb\xbf{\r\n{216,0,\r\n{80216,0}\r\n}\r\n}'
    if kind == 'cf16o':
        p.main['version'] = rng.choice([b'\xef\xbb\xbf{\r\n{216,0,\r\n{80216,0}\r\n}\r\n}', b'\xef\xbb\xbf{\r\n{216,0}\r\n}'])
        root = c26.root_object(p)
        donor = next(v for v in p.main.values() if isinstance(v, dict) and 'text' in v)
        for n in ('0', '5', '6', '7'):
            k = f'{root}.{n}'
            if k not in p.main:
                p.main[k] = type(donor)(donor)
            if isinstance(p.main[k], dict):
                p.main[k]['text'] = b''
                own[(k, 'text')] = True
    for k, n in mutate.modules(p):
        if (k, n) in own or n == 'text' and mutate.is_old(p):
            continue
        own[(k, n)] = n == 'module'
    return p, own


def run(case, obs):
    rng = case_rng('C24', case['seed'], case['i'])
    p, own = prepare(case['kind'], rng, obs)
    want = {}
    marks = {}
    for n, w in enumerate(sorted(own)):
        mark, s = text(rng, n, obs)
        want[w], marks[mark] = s, w
        c08.put(p, w, (stored(s) if own[w] else s).replace('\n', rng.choice(['\n', '\r\n'])), 'sig')
        obs.count('old_modules' if own[w] else 'new_modules')
        obs.count('form_modules' if w[1] == 'module' else 'root_modules' if own[w] else 'other_modules')
        obs.count('directives', sum(map(is_directive, s.split('\n'))))
        obs.sig(own[w], s)
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)

    def sources(src, want, marks):
        place = {}
        for f, d in c08.source_files(src).items():
            s = d.decode('utf-8')
            for m in re.findall(r'// модуль \d+ [0-9a-f]+', s):
                if m in marks:
                    place[marks[m]] = f
                    w = want[marks[m]]
                    obs.check(c08.norm(s) == w, 'source-differs', f'{f}: {c08.first_diff(w, s)}')
        for w in want:
            obs.check(w in place, 'module-not-extracted', f'module {w} is in no source file')
        return place

    def products(q, want, key):
        for w, s in want.items():
            m = stored(s) if own[w] else s
            got = c08.get(q, w)
            obs.check(got == m, key + ('' if own[w] else ':kept'), lambda: f'{w}: {c08.first_diff(m, got or "")}')

    place = sources(src, want, marks)
    products(q, want, 'built-differs')
    rt.judge(obs, p, q, out)
    todo = rng.sample(sorted(place), min(len(place), rng.randint(1, 8)))
    marks2 = {m: w for m, w in marks.items() if w not in todo}
    for n, w in enumerate(todo):
        mark, s = text(rng, 100 + n, obs)
        want[w], marks2[mark] = s, w
        P.write(os.path.join(src, place[w]), s.replace('\n', rng.choice(['\n', '\r\n'])).encode())
        obs.count('edits')
    rt.pick_schedule(rng)
    out2 = P.build(obs, src)
    products(P.parse_built(out2), want, 'edit-built-differs')
    src2 = os.path.join(obs.tmp, 'again', 'src')
    rt.pick_schedule(rng)
    P.extract(obs, out2, src2)
    sources(src2, want, marks2)
    obs.sample(dict(product=case['kind'], modules=len(want), edited=len(todo)))
