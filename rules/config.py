"""C27 configuration reading."""
import re
import yaml
from analyzer.engine import MapC, V
from analyzer.pair import resolve
from .common import Param
from .drivers import me
from .scorecard import plain

S = 'specs.config.'
FILES = {}


def state(e):
    if not hasattr(e, 'yaml'):
        e.yaml = ({}, [])
    return e.yaml


def named(args, kw, names):
    got = dict(zip(names, args))
    got.update(kw)
    return got


def loaders(e, v):
    """The loader classes of the library a value stands for."""
    v = e.val(v)
    name = v.pay if v.ty == 'ext' else e.ext_base(v.pay) if v.ty == 'cls' else None
    return (name or '?').rpartition('.')[2]


DEFAULT = ('Loader', 'FullLoader', 'UnsafeLoader')


def add_constructor(e, args, kw, node, at=None):
    got = named(args, kw, ('tag', 'constructor', 'Loader'))
    for name in at or ((loaders(e, got['Loader']),) if 'Loader' in got else DEFAULT):
        state(e)[0][name, e.val(got['tag']).c] = got['constructor']
    return e.NONE


def add_implicit_resolver(e, args, kw, node, at=None):
    got = named(args, kw, ('tag', 'regexp', 'first', 'Loader'))
    first = e.val(got.get('first', e.NONE))
    chars = [e.val(c).c[0] for c in e.listc(first).cells] if e.listc(first) is not None else list(first.c[0]) if first.c is not None and first.c[0] else None
    tag, regexp = e.val(got['tag']), e.val(got['regexp'])
    for name in at or ((loaders(e, got['Loader']),) if 'Loader' in got else DEFAULT):
        if tag.c is not None and regexp.ty == 'regex':
            state(e)[1].append((name, tag.c[0], regexp.pay[1], chars))
        else:
            e.raise_lanes(e.active, 'TypeError')
    return e.NONE


def text_of(e, v):
    v = e.val(v)
    if v.c is not None and isinstance(v.c[0], str):
        return FILES.get(v.c[0], v.c[0]) if '\n' not in v.c[0] else v.c[0]
    for x in (v.node or ('',))[1:] if (v.node or ('',))[0].startswith(('x:', 'm:', 'attr')) else ():
        found = text_of(e, x) if isinstance(x, V) and (e.val(x).c is None or e.val(x).c[0] in FILES) else None
        if found is not None:
            return found
    return None


def load(e, args, kw, node, safe=False):
    text = text_of(e, args[0] if args else kw['stream'])
    if text is None:
        return None
    if len(args) < 2 and 'Loader' not in kw and not safe:
        e.raise_lanes(e.active, 'TypeError')
        return e.NONE
    at = 'SafeLoader' if safe else loaders(e, args[1] if len(args) > 1 else kw['Loader'])
    constructors, resolvers = state(e)
    loader = type('Loader', (yaml.SafeLoader,), {'yaml_implicit_resolvers': {k: list(v) for k, v in yaml.SafeLoader.yaml_implicit_resolvers.items()}})
    for which, tag, pattern, first in resolvers:
        if which != at:
            continue
        loader.add_implicit_resolver(tag, re.compile(pattern), first)
    plainly = yaml.SafeLoader('')

    def build(n):
        if (at, (n.tag,)) in constructors:
            given = e.new_map()
            e.map_set(given, e.const('value'), e.const(n.value))
            return e.call(constructors[at, (n.tag,)], [e.ext('yaml.SafeLoader'), given], {}, node)
        if isinstance(n, yaml.MappingNode):
            m = e.new_map()
            for k, v in n.value:
                e.map_set(m, build(k), build(v))
            return m
        if isinstance(n, yaml.SequenceNode):
            return e.new_list([build(x) for x in n.value])
        if n.tag not in yaml.SafeLoader.yaml_constructors:
            e.raise_lanes(e.active, 'ConstructorError')
            return e.NONE
        return e.const(plainly.construct_object(n))
    return build(yaml.compose(text, loader))


def construct_scalar(e, args, kw, node):
    n = e.val(args[-1] if args else kw['node'])
    c = e.mapc(n)
    return e.map_get(n, e.const('value')) if isinstance(c, MapC) and c.base is None else None


def parse_config(e, args, kw, node):
    f = resolve(e, 'metcalcpy.util.read_env_vars_in_config.parse_config')
    return None if f is None else e.call(f, args, kw, node)


def read_data(e, args, kw, node):
    got = named(args, kw, ('reader', 'load_flags', 'load_files', 'line_types'))
    e.effect('read_data', [got[k] for k in ('reader', 'load_flags', 'load_files', 'line_types') if k in got], {}, node)
    return e.NONE


def read_xml(e, args, kw, node):
    e.effect('read_xml', args, kw, node)
    return e.NONE


READERS = {'m:read_data': read_data, 'm:read_xml': read_xml}
HOOKS = {'read_env_vars_in_config.parse_config': parse_config, 'yaml.SafeLoader.construct_scalar': construct_scalar, 'm:construct_scalar': construct_scalar, 'yaml.load': load, 'yaml.safe_load': lambda *a: load(*a, safe=True),
         'separate pieces': None}
for f in (add_constructor, add_implicit_resolver):
    HOOKS['yaml.' + f.__name__] = f
    for name in DEFAULT + ('SafeLoader', 'BaseLoader', 'CSafeLoader', 'CLoader'):
        HOOKS['yaml.%s.%s' % (name, f.__name__)] = lambda e, args, kw, node, f=f, name=name: f(e, args, kw, node, (name,))

DOCS = (
    ('plain', 'a: text\nb: 12\nc: 1.5\nd: true\n'),
    ('one', 'a: ${X}\nb: /data/${X}\nc: ${X}/data\n'),
    ('two', 'a: ${X}/mid/${Y}\nb: ${X}${Y}\nc: x${LONG_NAME_2}y${Y}z\n'),
    ('twice', 'a: ${X}/${X}\nb: ${X}:${Y}:${X}\n'),
    ('tagged', "a: !ENV ${X}\nb: !ENV '/var/${X}'\nc: !ENV '${X}/var/${Y}'\nd: !ENV plain\n"),
    ('nested', 'a:\n  b: ${X}/f\n  c: 3\nd:\n  - ${Y}\n  - q${X}r\n'),
    ('records', '- a: ${Y}\n  b: 3\n- a: p${X}\n  b: ${Z_1}\n'),
    ('no reference', 'a: $X\nb: "{X}"\nc: $\nd: ${}x\ne: ${a-b}\n'),
    ('list', '- ${X}\n- ${Y}/z\n- 4\n'),
)


def c27(ctx):
    for name, text in DOCS:
        bare = yaml.load(text.replace('!ENV ', ''), Loader=yaml.SafeLoader)
        FILES['/' + name] = text
        for how, path, data in (('data', None, text), ('path', '/' + name, None), ('both', '/' + name, 'other: 1\n')):
            ctx.pair('expanded', 'metcalcpy.util.read_env_vars_in_config.parse_config', S + 'document', [plain(bare), (path,), (data,), ('!ENV',)],
                     impl_args=[(path,), (data,)], model=HOOKS, strict=False, construct='%s from %s' % (name, how))
    for given in (None, ''):
        ctx.pair('expanded', 'metcalcpy.util.read_env_vars_in_config.parse_config', S + 'document', [plain(1), (given,), (given,), ('!ENV',)],
                 impl_args=[(given,), (given,)], model=HOOKS, strict=False, construct='nothing given: %r' % given)
    text = 'a: !CONF x${X}y${Y}\nb: ${X}\nc: 5\n'
    bare = yaml.load(text.replace('!CONF ', ''), Loader=yaml.SafeLoader)
    ctx.pair('expanded', 'metcalcpy.util.read_env_vars_in_config.parse_config', S + 'document', [plain(bare), (None,), (text,), ('!CONF',)],
             impl_args=[(None,), (text,), ('!CONF',)], model=HOOKS, strict=False, construct='another tag')
    FILES['/files'] = 'files:\n  - ${X}/a.stat\n  - b.stat\nother: 3\n'
    R = 'metcalcpy.util.read_file.ReadMETOutput.'
    ctx.pair('files', R + 'readYAMLConfig', S + 'files', [plain(['${X}/a.stat', 'b.stat'])], impl_args=[me(R[:-1]), ('/files',)], model=HOOKS, strict=False)
    ctx.pair('files', R + 'readXMLConfig', S + 'xml_files', [me(R[:-1]), 'path'], effects=[], model=READERS, strict=False)
    ctx.pair('records read', R + 'readData', S + 'records', [me(R[:-1]), 'files'], effects=[], model=READERS, strict=False)
    ctx.pair('flags', R + '__init__', S + 'flags', [me(R[:-1])], check_args=True, strict=False)
