F = 'metcalcpy/util/read_env_vars_in_config.py'
READ = '''
import os
from metcalcpy.util.read_env_vars_in_config import parse_config
os.environ['ALPHA'] = '/alpha'
os.environ['BETA'] = 'beta'
os.environ.pop('GAMMA', None)
'''
SEEDS = [
dict(id='config-last-reference-only', prop='C27', file=F, func='parse_config',
 old=r"pattern = re.compile('.*?\${(\w+)}.*?')", new=r"pattern = re.compile('.*\${(\w+)}')",
 needs='two references to different variables in one value', what='only the last reference of a value is replaced',
 demo=READ + '''
assert parse_config(data='a: ${ALPHA}/x/${BETA}')['a'] == '/alpha/x/beta', parse_config(data='a: ${ALPHA}/x/${BETA}')
'''),
dict(id='config-reference-not-first', prop='C27', file=F, func='parse_config',
 old=r"loader.add_implicit_resolver(tag, pattern, None)", new=r"loader.add_implicit_resolver(tag, pattern, ['$'])",
 needs='an untagged value whose reference is not at its start', what='a plain value with text before the reference is returned unexpanded',
 demo=READ + '''
assert parse_config(data='a: top${ALPHA}')['a'] == 'top/alpha', parse_config(data='a: top${ALPHA}')
'''),
dict(id='config-expandvars', prop='C27', file=F, func='constructor_env_variables',
 old="""            for g in match:
                full_value = full_value.replace(
                    f'${{{g}}}', os.environ.get(g, g)
                )
""", new="""            full_value = os.path.expandvars(value)
""",
 needs='a reference to an unset variable', what='references to unset variables stay in the text',
 demo=READ + '''
assert parse_config(data='a: ${GAMMA}/${BETA}')['a'] == 'GAMMA/beta', parse_config(data='a: ${GAMMA}/${BETA}')
'''),
dict(id='config-data-over-path', prop='C27', file=F, func='parse_config',
 old="    if path:\n        with open(path) as conf_data:", new="    if path and not data:\n        with open(path) as conf_data:",
 needs='both a file and text given', what='the text hides the file',
 demo=READ + '''
import tempfile
with tempfile.NamedTemporaryFile('w', suffix='.yaml') as f:
    f.write('a: 1')
    f.flush()
    assert parse_config(f.name, 'a: 2') == {'a': 1}
'''),
dict(id='config-reader-no-mtd', prop='C27', file='metcalcpy/util/read_file.py', func='__init__',
 old="self.flags['load_mtd'] = True", new="self.flags['load_mtd'] = self.flags['line_type_load']",
 needs='MTD records among the files', what='time-domain object records are not requested from the reader',
 demo='''
import sys, types
import metcalcpy.util.read_env_vars_in_config as r
sys.modules['read_env_vars_in_config'] = r
for n in ('METdatadb', 'METdatadb.METdbLoad', 'METdatadb.METdbLoad.ush', 'METdatadb.METdbLoad.ush.read_data_files', 'METdatadb.METdbLoad.ush.read_load_xml'):
    sys.modules[n] = types.ModuleType(n)
sys.modules['METdatadb'].METdbLoad = sys.modules['METdatadb.METdbLoad']
sys.modules['METdatadb.METdbLoad.ush'].read_data_files = sys.modules['METdatadb.METdbLoad.ush.read_data_files']
sys.modules['METdatadb.METdbLoad.ush.read_load_xml'].XmlLoadFile = object
from metcalcpy.util.read_file import ReadMETOutput
f = ReadMETOutput().flags
assert f['load_mtd'] is True and f['load_mode'] is True, f
'''),
]
