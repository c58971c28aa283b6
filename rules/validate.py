"""C25 deletions and comparisons of the validation tool."""
import os
from .common import Param
from .drivers import me
from .grids import grid
from .outputs import aliases, references

S = 'specs.validate.'
V = 'metcalcpy.validate_mv_python.'
I = 'metcalcpy.compare_images.CompareImages'
W = 'metcalcpy.contributed.blocking_weather_regime.WeatherRegime.WeatherRegimeCalculation'
DELETES = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'shutil.move', 'os.rename', 'os.renames', 'os.replace', 'os.truncate'}
TAGS = ('plot_file', 'plots', 'data_file', 'r_file', 'r_tmpl', 'r_work', 'user', 'password', 'data', 'scripts')


def image(name):
    return Param(name, value=grid(name, (2, 2)))


def parse(e, args, kw, node):
    """A document: one element per tag, each with its text."""
    path = e.val(args[0] if args else kw['file'])
    doc = e.new_map()
    for tag in TAGS:
        text = e.new_map()
        e.map_set(text, e.const('nodeValue'), e.op('text of element', [path, e.const(tag)], 'str'))
        first = e.new_map()
        e.map_set(first, e.const('firstChild'), text)
        e.map_set(doc, e.const(tag), e.new_list([first]))
    return doc


def elements(e, args, kw, node):
    tag = e.val(args[1])
    if e.mapc(e.val(args[0])) is None or tag.c is None or tag.c[0] not in TAGS:
        return None
    return e.map_get(args[0], tag)


def texts(e, doc):
    out = []
    for tag in TAGS:
        first = e.attr(e.index(e.map_get(doc, e.const(tag)), e.const(0)), 'firstChild')
        out.append(e.attr(first, 'nodeValue'))
    return out


def writexml(e, args, kw, node):
    e.effect('writexml', texts(e, args[0]) + list(args[1:]), kw, node)
    return e.NONE


XML = {'xml.dom.minidom.parse': parse, 'm:getElementsByTagName': elements, 'm:writexml': writexml}


def c25(ctx):
    ctx.pair('deletions', V + 'clean', S + 'clean', ['params'], effects=[], strict=False)
    ctx.pair('deletions', V + 'delete_similar_files', S + 'delete_similar_files', ['directory', 'name'], effects=[], strict=False)
    ctx.pair('names', V + 'replace_name', S + 'replace_name', ['name', 'postfix'], strict=False)
    ctx.pair('period', V + 'get_testing_period', S + 'get_testing_period', ['params'], strict=False)
    ctx.pair('period', V + 'get_test_xml', S + 'get_test_xml', ['params'], strict=False)
    ctx.pair('run', V + 'main', S + 'main', ['params'], effects=[], model=XML, strict=False)
    for found in (1.0, 0.9999999, 0):
        alike = dict(XML)
        alike['skimage.metrics.structural_similarity'] = lambda e, args, kw, node, found=found: e.new_list(
            [e.const(found), e.op('difference', [e.val(a) for a in args])], kind='tuple')
        alike['cv2.imread'] = lambda e, args, kw, node: e.op('picture', [e.val(a) for a in args], 'num')
        ctx.pair('run', V + 'main', S + 'main', ['params'], effects=[], model=alike, strict=False, construct='run with similarity %r' % found)
    ctx.pair('comparison', I + '.__init__', S + 'CompareImages.__init__', [me(I), 'first', 'second'], check_args=True, strict=False)
    for state, thresh in (('first', (None,)), ('again', image('thresh'))):
        for n in (1, 2):
            for shown in ('none', 'some'):
                given = dict(thresh=thresh)
                given['diff_in_image_%d' % n] = (None,) if shown == 'none' else image('shown')
                for act in ('save', 'show'):
                    name = '%s_difference_in_image_%d' % (act, n)
                    if act == 'show':
                        ctx.pair('images', I + '.' + name, S + 'CompareImages.' + name, [me(I, **given)], spec_args=[me(S + 'CompareImages', **given)],
                                 effects=[], strict=False, construct='%s: %s, %s, not waiting' % (name, state, shown))
                    ctx.pair('images', I + '.' + name, S + 'CompareImages.' + name, [me(I, **given), 'x'], spec_args=[me(S + 'CompareImages', **given), 'x'],
                             effects=[], strict=False, construct='%s: %s, %s' % (name, state, shown))
        for name in ('save_thresh_image', 'show_thresh_image', 'save_difference_image', 'show_difference_image', 'get_mssim'):
            given = dict(thresh=thresh)
            if name.startswith('show'):
                ctx.pair('images', I + '.' + name, S + 'CompareImages.' + name, [me(I, **given)], spec_args=[me(S + 'CompareImages', **given)],
                         effects=[], strict=False, construct='%s: %s, not waiting' % (name, state))
            ctx.pair('images', I + '.' + name, S + 'CompareImages.' + name, [me(I, **given), 'x'][:1 if name == 'get_mssim' else 2],
                     spec_args=[me(S + 'CompareImages', **given), 'x'][:1 if name == 'get_mssim' else 2],
                     effects=[], strict=False, construct='%s: %s' % (name, state))
    for kind in ('text', 'netcdf', 'other'):
        ctx.pair('deletions', W + '.write_K_means_file', S + 'regimes_file', [me(W, wr_outfile_type=(kind,)), 'times', image('regimes')],
                 effects=['os.remove', 'open'], result=False, strict=False, construct='regimes written as ' + kind)
    sites(ctx)


def modules(repo):
    for package, top in repo.roots.items():
        if package != 'metcalcpy':
            continue
        for at, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(at, f), top)[:-3].replace(os.sep, '.')
                    yield package + '.' + rel if rel != '__init__' and not rel.endswith('.__init__') else (package + '.' + rel).rpartition('.')[0]


def sites(ctx):
    """Every place that can delete is one whose deletions were compared above."""
    seen = 0
    for name in modules(ctx.repo):
        mod = ctx.repo.get(name)
        if mod is None:
            continue
        seen += 1
        for owner, node, dotted in references(mod, aliases(mod.tree, name.rpartition('.')[0])):
            if dotted not in DELETES:
                continue
            where = '%s in %s' % (dotted, owner)
            if any(owner == f or owner.startswith(f + '.') for f in ctx.functions):
                ctx.ok('deletion sites', where)
            else:
                ctx.find('deletion sites', where, '%s:%d' % (mod.path, node.lineno), 'a deletion outside the cleanup of owned directories and files')
    if seen < 30:
        ctx.find('deletion sites', 'package', '', 'the modules of the package are no longer found')
