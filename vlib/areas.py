"""A model of include areas in module texts (C09, C10): renders a generated module as the product holds it and as the
source files should hold it."""
from . import gen

LINES = ['Процедура Выполнить() Экспорт', 'КонецПроцедуры', '&НаСервереБезКонтекста', '#Если Сервер Тогда',
         '#КонецЕсли', '\tА = "стр""ока";', '\t|продолжение', '// #Область include_core_x', '', '\t', '\tБ = 1; // {,}',
         '"', '#Использовать lib', '    ', '//', 'А = 1; #Область include_foo', '//#КонецОбласти', 'Ω€😀', '## Область',
         '#Если Клиент Тогда #Область', '\t#КонецЕсли']
OLD_LINES = [x for x in LINES if not x.startswith(('&', '#О', '##'))]
TAIL = ['', '', '', ' // примечание', '  ', ' // см. http://a/b // c', '\t// x']
DIRECTIVES = ['&НаКлиенте', '&НаСервере', '&НаСервереБезКонтекста', '&НаКлиентеНаСервере', '&НаКлиенте', '&НаСервере',
              '&AtClient', '&atserver', '&Перед("ПриОткрытии")', '&ИзменениеИКонтроль("А") &НаКлиенте']
SHAPE = ['', '', '', '\t', '  ']


class Area:
    def __init__(self, key, kind, directive, items, indent='', tail='#КонецОбласти'):
        self.key, self.kind, self.directive, self.items = key, kind, directive, items
        self.indent, self.tail = indent, tail

    def head(self):
        return f'{self.indent}#Область {self.kind}_{self.key}' + (f' //{self.directive}' if self.directive else '')


class Region:
    def __init__(self, head, items, tail):
        self.head, self.items, self.tail = head, items, tail


class Dyn:
    """a line marked for the directive of the area around it"""

    def __init__(self, indent, own, tail=''):
        self.indent, self.own, self.tail = indent, own, tail

    def source(self, d):
        return self.indent + '//DynamicDirective' + self.tail if d else self.product(d)

    def product(self, d):
        d = d or self.own
        return self.indent + (f'{d} ' if d else '') + '//DynamicDirective' + self.tail


def name_part(rng):
    return ''.join(c for c in gen.ident(rng, 1, 10) if c != '_') or 'x'


def make_key(rng, used, single=True):
    while True:
        k = rng.random()
        if single and k < 0.2:
            key = name_part(rng) if k < 0.18 else 'root'
        else:
            n = rng.choice([2, 2, 3, 4])
            parts = [name_part(rng) for _ in range(n)]
            if k > 0.85:
                parts.insert(0, '')  # one folder up
            if n > 2 and rng.random() < 0.2:
                parts.insert(rng.randint(1, n - 1), '')
            key = '_'.join(parts)
        if norm_key(key) not in used:
            used.add(norm_key(key))
            return key


def norm_key(key):
    return key.lower()


def make(rng, used, depth=0, dyn=True, old=False, areas=None, readers=(), n=None, forced=False, directive=None):
    """random items; every new area is appended to `areas`; `readers`: keys of files that already exist (includr)"""
    out = []
    for _ in range(n if n is not None else rng.randint(0, 7 if depth else 12)):
        k = rng.random()
        if k < 0.16 and depth < 4:
            if readers and rng.random() < 0.3:
                a = Area(rng.choice(readers), 'includr', None, [])
            else:
                d = rng.choice(DIRECTIVES) \
                    if dyn and rng.random() < 0.5 else None
                a = Area(make_key(rng, used), 'include', d, [], rng.choice(SHAPE) if not old else '')
                a.items = make(rng, used, depth + 1, dyn, old, areas, readers, directive=d or directive)
                if areas is not None:
                    areas.append(a)
            if rng.random() < 0.2 and not old:
                a.tail = rng.choice(['\t#КонецОбласти', '#КонецОбласти // конец', '#КонецОбласти  '])
            out.append(a)
        elif k < 0.28 and depth < 5:
            head = rng.choice(['#Область Служебная', '#Область includ_x', '#Область Include_X', '#Область  include_x',
                               '\t#Область xinclude_y', '#ОбластьБезПробела'] if not old else ['#Область Служебная'])
            out.append(Region(head, make(rng, used, depth + 1, dyn, old, areas, readers, directive=directive),
                              '#КонецОбласти'))
        elif k < 0.38 and dyn and not old:
            own = rng.choice([None, None, None] + DIRECTIVES)
            out.append(Dyn(rng.choice(SHAPE), own, rng.choice(TAIL)))
        elif k < 0.9:
            out.append(rng.choice(OLD_LINES if old else LINES))
        else:
            s = gen.text(rng, 0, 60, nl=False).replace('\x0b', ' ').replace('\u2028', ' ').replace('\x85', ' ')
            out.append('\t' + s.lstrip().lstrip('#') if s.strip()[:1] in ('#', '&') else s)
    return out


def stretch(rng, n):
    """a long stretch of text"""
    line = rng.choice(OLD_LINES)
    return [line + ' ' * (i % 7) + 'я' * (i % 50) for i in range(n)]


def product(items, d=None, readers=None):
    """lines as in the product. readers: key -> lines (as in the source file)"""
    out = []
    for x in items:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, Dyn):
            out.append(x.product(d))
        elif isinstance(x, Region):
            out += [x.head] + product(x.items, d, readers) + [x.tail]
        else:
            dd = x.directive or d
            out.append(x.head())
            if x.kind == 'includr' and readers is not None and x.key in readers:
                out += [y.product(dd) if isinstance(y, Dyn) else y for y in readers[x.key]]
            else:
                out += product(x.items, dd, readers)
            out.append(x.tail)
    return out


def sources(items, files, d=None):
    """lines as in the source file; files: key -> lines (include areas)"""
    out = []
    for x in items:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, Dyn):
            out.append(x.source(d))
        elif isinstance(x, Region):
            out += [x.head] + sources(x.items, files, d) + [x.tail]
        else:
            inner = sources(x.items, files, x.directive or d)
            out += [x.head(), x.tail]
            if x.kind == 'include':
                files[x.key] = inner
    return out


def area_path(key, module_dir, levels, rename=None):
    """path of an area file relative to the folder of the sources; module_dir: folder of the module"""
    if rename:
        key = rename.get(key, key)
    parts = key.split('_')
    if len(parts) == 1:
        return module_dir, parts[0] + '.bsl'
    up = ['..'] * levels
    return '/'.join(up + [x or '..' for x in parts[:-1]]), parts[-1] + '.bsl'


def text(lines, last=True):
    last = last or lines[-1:] == ['']  # an empty line without a line end is no line
    return '\n'.join(lines) + ('\n' if last and lines else '')
