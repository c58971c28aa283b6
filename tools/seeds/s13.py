F = 'metcalcpy/validate_mv_python.py'
C = 'metcalcpy/compare_images.py'
RUN = '''
import os, sys, types, tempfile, shutil, datetime
class Mat:
    def __init__(self, name): self.name = name
    def __mul__(self, k): return self
    def astype(self, t): return self
    def copy(self): return Mat(self.name + ' copy')
    def __bool__(self): raise ValueError('ambiguous')
log = []
cv2 = types.ModuleType('cv2')
cv2.imread = lambda p: Mat(open(p).read()) if os.path.exists(p) and open(p).read() != 'bad' else None
cv2.cvtColor = lambda m, how: m
cv2.threshold = lambda g, *a: (0, Mat('thresh'))
def imwrite(p, m):
    log.append((os.path.basename(p), m.name))
    open(p, 'w').write(m.name)
cv2.imwrite = imwrite
cv2.imshow = lambda *a: log.append(a[0])
cv2.findContours = lambda *a: [1, 2]
cv2.boundingRect = lambda c: (c, 2 * c, 3 * c, 4 * c)
cv2.rectangle = lambda m, *a: log.append((m.name,) + a[:2])
for n in ('COLOR_BGR2GRAY', 'THRESH_BINARY_INV', 'THRESH_OTSU', 'RETR_EXTERNAL', 'CHAIN_APPROX_SIMPLE'):
    setattr(cv2, n, 1)
im = types.ModuleType('imutils')
im.grab_contours = lambda c: c
sk, me = types.ModuleType('skimage'), types.ModuleType('skimage.metrics')
score = {}
me.structural_similarity = lambda a, b, full=False: (score.get((a.name, b.name), 1.0 if a.name == b.name else 0.5), Mat('grad'))
sys.modules.update({'cv2': cv2, 'imutils': im, 'skimage': sk, 'skimage.metrics': me})
import metcalcpy.validate_mv_python as v
top = tempfile.mkdtemp()
def d(n):
    os.makedirs(os.path.join(top, n), exist_ok=True)
    return os.path.join(top, n) + '/'
params = {'input_xml_dir': d('in'), 'output_xml_dir': d('xml'), 'output_plots_dir': d('plots'), 'output_data_dir': d('data'), 'output_scripts_dir': d('scripts'),
          'mv_home': d('home'), 'db_user': 'u', 'db_pass': 'p', 'start_date': '2000-01-01', 'end_date': '2100-01-01'}
orig = d('orig')
DOC = ('<r><plot_file>%s</plot_file><plots>' + orig[:-1] + '</plots><data_file>x.data</data_file><r_file>x.R</r_file><r_tmpl>t</r_tmpl><r_work>w</r_work>'
       '<user>a</user><password>b</password><data>dd</data><scripts>ss</scripts></r>')
def plot(name, old=None, new=None):
    open(params['input_xml_dir'] + name + '.xml', 'w').write(DOC % (name + '.png'))
    if old is not None:
        open(orig + name + '.png', 'w').write(old)
    made[name] = new
made = {}
class P:
    def __init__(self, cmd, **k):
        name = os.path.basename(cmd[1]).replace('_py.xml', '')
        if made[name] is not None:
            open(params['output_plots_dir'] + name + '_py.png', 'w').write(made[name])
        for k in ('scripts', 'data'):
            open(params['output_%s_dir' % k] + name + '_py.txt', 'w').write('')
    def communicate(self): return '', ''
    def wait(self): return 0
v.subprocess = types.SimpleNamespace(Popen=P, PIPE=-1)
def left():
    return sorted(os.path.relpath(os.path.join(r, f), top) for r, _, fs in os.walk(top) for f in fs)
'''
END = '''
got = left()
shutil.rmtree(top)
'''
SEEDS = [
dict(id='validate-clears-inputs', prop='C25', file=F, func='clean',
 old="    for file in os.scandir(params['output_xml_dir']):", new="    for file in os.scandir(os.path.dirname(params['output_xml_dir'].rstrip('/')) if params['output_xml_dir'].endswith('xml/') else params['output_xml_dir']):",
 needs='an output directory whose name ends in xml', what='the directory above the rewritten documents is cleared as well',
 demo=RUN + '''
open(top + '/xml/stale', 'w').write('')
open(top + '/keep', 'w').write('')
for n in ('in', 'plots', 'data', 'scripts', 'home', 'orig'):
    os.rmdir(top + '/' + n) if n in ('in', 'home', 'orig') else None
try:
    v.clean(params)
except OSError:
    pass
''' + END + '''
assert got == ['keep'], got
'''),
dict(id='validate-similar-enough', prop='C25', file=F, func='main',
 old="if ssim == 1.0:", new="if round(ssim, 3) == 1.0:",
 needs='an image that differs in very few pixels', what='slightly different images count as identical and the new one is deleted',
 demo=RUN + '''
score[('a', 'b')] = 0.99996
plot('p', 'a', 'b')
v.main(params)
''' + END + '''
assert 'plots/p_py.png' in got and 'xml/p_py.xml' in got, got
'''),
dict(id='validate-removes-original', prop='C25', file=F, func='main',
 old="""                    # remove new image
                    os.remove(new_image_path)""", new="""                    # remove new image
                    os.remove(original_plot_path if plot_path in params['output_plots_dir'] else new_image_path)""",
 needs='originals kept in a directory above the new plots', what='the original image is deleted instead of the new one',
 demo=RUN + '''
params['output_plots_dir'] = orig + 'new/'
os.makedirs(params['output_plots_dir'])
plot('p', 'a', 'a')
v.main(params)
''' + END + '''
assert 'orig/p.png' in got and 'orig/new/p_py.png' not in got, got
'''),
dict(id='validate-one-missing', prop='C25', file=F, func='main',
 old="""                and not os.path.exists(new_image_path):""", new="""                or not os.path.exists(new_image_path):""",
 needs='one of the two images missing', what='a plot with only one of its images counts as validated and its files are removed',
 demo=RUN + '''
plot('p', 'a', None)
v.main(params)
''' + END + '''
assert 'xml/p_py.xml' in got and 'scripts/p_py.txt' in got, got
'''),
dict(id='validate-delete-on-unreadable', prop='C25', file=F, func='main',
 old="""                print(f'ERROR: For {plot_name} : {err}')""", new="""                print(f'ERROR: For {plot_name} : {err}')
                delete_similar_files(params['output_plots_dir'], plot_name)""",
 needs='an image that cannot be read', what='the new image is deleted when the original cannot be read',
 demo=RUN + '''
plot('p', 'bad', 'a')
v.main(params)
''' + END + '''
assert 'plots/p_py.png' in got, got
'''),
dict(id='validate-name-prefix', prop='C25', file=F, func='delete_similar_files',
 old="""                              + file_name.split('.')[0]
                              + '*'):""", new="""                              + file_name.split('_')[0]
                              + '*'):""",
 needs='plots whose names share the part before an underscore', what='the script and data files of other plots are deleted',
 demo=RUN + '''
plot('a_one', 'x', 'y')
plot('a_two', 'x', 'x')
v.main(params)
''' + END + '''
assert 'scripts/a_one_py.txt' in got and 'data/a_one_py.txt' in got, got
'''),
dict(id='compare-second-marks-first', prop='C25', file=C, func='_init_diff_in_image_2',
 old="            cv2.rectangle(self.diff_in_image_2, (x, y), (x + w, y + h), (0, 0, 255), 2)",
 new="            cv2.rectangle(self.diff_in_image_2, (x, y), (x + w, x + h), (0, 0, 255), 2)",
 needs='differences away from the diagonal in the second image', what='the box drawn around a difference of the second image has the wrong height',
 demo=RUN + '''
open(orig + 'a', 'w').write('a')
open(orig + 'b', 'w').write('b')
c = v.CompareImages(orig + 'a', orig + 'b')
c.save_difference_in_image_2(orig + 'o')
''' + END + '''
assert ('b copy', (2, 4), (8, 12)) in log, log
'''),
]
