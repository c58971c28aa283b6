"""Reference definitions for reading configurations."""
import os
import re
from METdatadb.METdbLoad.ush import read_data_files
from METdatadb.METdbLoad.ush.read_load_xml import XmlLoadFile


def expanded(text):
    """Literal text and names of environment references alternate."""
    out = ''
    for place, piece in enumerate(re.split(r'\$\{(\w+)\}', text)):
        out += os.environ.get(piece, piece) if place % 2 else piece
    return out


def value(x):
    if isinstance(x, str):
        return expanded(x)
    if isinstance(x, list):
        return [value(y) for y in x]
    if isinstance(x, dict):
        return {k: value(y) for k, y in x.items()}
    return x


def document(plain, path, text, tag):
    if not path and not text:
        raise ValueError('nothing to read')
    return value(plain)


def files(plain):
    return value(plain)


def xml_files(self, path):
    loading = XmlLoadFile(path)
    loading.read_xml()
    return loading.load_files


def records(self, files):
    reading = read_data_files.ReadDataFiles()
    reading.read_data(self.flags, files, [])
    return reading.stat_data


def flags(self):
    on = ('load_stat', 'load_mode', 'load_mtd', 'stat_header_db_check', 'tcst_header_db_check', 'mode_header_db_check',
          'mtd_header_db_check', 'load_xml')
    off = ('line_type_load', 'load_mpr', 'load_orank', 'force_dup_file', 'verbose', 'drop_indexes', 'apply_indexes')
    self.flags = {}
    for name in on:
        self.flags[name] = True
    for name in off:
        self.flags[name] = False
