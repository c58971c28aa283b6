SEEDS = [
dict(id='tost-upper-tail', prop='C18', file='metcalcpy/util/tost_paired.py', func='tost_paired',
 old="    t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se", new="    t2 = ((m1 - m2) + (low_eqbound_dz * sdif)) / se",
 needs='equivalence bounds that are not symmetric around zero', what='the upper one-sided test uses the mirrored lower bound',
 demo='''
import math
from scipy.stats import t
from metcalcpy.util.tost_paired import tost_paired
got = tost_paired(12, 5.2, 5.0, 1.1, 1.3, 0.4, -0.9, 0.2)
s = math.sqrt(1.21 + 1.69 - 2 * 0.4 * 1.1 * 1.3)
want = (0.2 - 0.2 * s) / (s / math.sqrt(12))
assert abs(got['t'][1] - want) < 1e-4, (got['t'], want)
'''),
dict(id='tost-interval-two-sided', prop='C18', file='metcalcpy/util/utils.py', func='tost_paired',
 old="    ul90 = ((m1 - m2) + qt(1 - alpha, degree_f) * se)", new="    ul90 = ((m1 - m2) - qt(1 - alpha, degree_f) * se + 2 * qt(1 - 0.05, degree_f) * se)",
 needs='a level other than 0.05', what='the upper end of the equivalence interval ignores the requested level',
 demo='''
import math
from scipy.stats import t
from metcalcpy.util.utils import tost_paired
got = tost_paired(12, 5.2, 5.0, 1.1, 1.3, 0.4, -0.9, 0.2, 0.1)
s = math.sqrt(1.21 + 1.69 - 2 * 0.4 * 1.1 * 1.3)
want = 0.2 + t.ppf(0.9, 11) * s / math.sqrt(12)
assert abs(got['ci_tost'][1] - want) < 1e-4, (got['ci_tost'], want)
'''),
]
