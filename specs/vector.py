"""Wind scores from the vector partial sums."""
from math import sqrt, atan2, floor, degrees
from specs.prims import S, R, T
from specs.sl1l2 import mean, mean_score


def speed(u, v):
    return sqrt(u * u + v * v)


def direction(u, v):
    """Compass direction of a vector in degrees, undefined for a null vector."""
    if abs(u) < 0.00001 and abs(v) < 0.00001:
        return None
    d = degrees(atan2(u, v))
    return d - 360 * floor(d / 360)


def calc_speed(u, v):
    return speed(u, v)


def calc_direction(u, v):
    return direction(u, v)


def calculate_vl1l2_bias(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'uvffbar')) - sqrt(mean(t, k, agg, 'uvoobar')))


def variance(t, k, agg, square, first):
    m = mean(t, k, agg, first)
    return R(mean(t, k, agg, square) - m * m)


def calculate_vl1l2_fvar(t, k, agg):
    return variance(t, k, agg, 'uvffbar', 'f_speed_bar')


def calculate_vl1l2_ovar(t, k, agg):
    return variance(t, k, agg, 'uvoobar', 'o_speed_bar')


def mean_vector_speed(t, k, agg, side):
    return R(speed(mean(t, k, agg, 'u' + side + 'bar'), mean(t, k, agg, 'v' + side + 'bar')))


def calculate_vl1l2_fspd(t, k, agg):
    return mean_vector_speed(t, k, agg, 'f')


def calculate_vl1l2_ospd(t, k, agg):
    return mean_vector_speed(t, k, agg, 'o')


def calculate_vl1l2_speed_err(t, k, agg):
    return R(mean_vector_speed(t, k, agg, 'f') - mean_vector_speed(t, k, agg, 'o'))


def msve(t, k, agg):
    x = mean(t, k, agg, 'uvffbar') + mean(t, k, agg, 'uvoobar') - 2 * mean(t, k, agg, 'uvfobar')
    if x < 0:
        return None
    return R(x)


def calculate_vl1l2_msve(t, k, agg):
    return msve(t, k, agg)


def calculate_vl1l2_rmsve(t, k, agg):
    return R(sqrt(msve(t, k, agg)))


def calculate_vl1l2_total(t, k):
    return R(S(t, k, 'total'))


def calculate_val1l2_total(t, k):
    return R(S(t, k, 'total'))


def wind_corr(uf, vf, uo, vo, uvfo, uvff, uvoo):
    return (uvfo - (uf * uo + vf * vo)) / (sqrt(uvff - (uf * uf + vf * vf)) * sqrt(uvoo - (uo * uo + vo * vo)))


def calc_wind_corr(uf, vf, uo, vo, uvfo, uvff, uvoo):
    return wind_corr(uf, vf, uo, vo, uvfo, uvff, uvoo)


def calculate_val1l2_anom_corr(t, k, agg):
    return R(wind_corr(mean(t, k, agg, 'ufabar'), mean(t, k, agg, 'vfabar'), mean(t, k, agg, 'uoabar'), mean(t, k, agg, 'voabar'),
                       mean(t, k, agg, 'uvfoabar'), mean(t, k, agg, 'uvffabar'), mean(t, k, agg, 'uvooabar')))


def calculate_vcnt_fbar(t, k, agg):
    return mean_score(t, k, agg, 'f_speed_bar')


def calculate_vcnt_obar(t, k, agg):
    return mean_score(t, k, agg, 'o_speed_bar')


def calculate_vcnt_fs_rms(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'uvffbar')))


def calculate_vcnt_os_rms(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'uvoobar')))


def calculate_vcnt_msve(t, k, agg):
    return msve(t, k, agg)


def calculate_vcnt_rmsve(t, k, agg):
    return R(sqrt(msve(t, k, agg)))


def calculate_vcnt_fstdev(t, k, agg):
    return R(sqrt(calculate_vl1l2_fvar(t, k, agg)))


def calculate_vcnt_ostdev(t, k, agg):
    return R(sqrt(calculate_vl1l2_ovar(t, k, agg)))


def calculate_vcnt_fdir(t, k, agg):
    return R(direction(-mean(t, k, agg, 'ufbar'), -mean(t, k, agg, 'vfbar')))


def calculate_vcnt_odir(t, k, agg):
    return R(direction(-mean(t, k, agg, 'uobar'), -mean(t, k, agg, 'vobar')))


def calculate_vcnt_fbar_speed(t, k, agg):
    return mean_vector_speed(t, k, agg, 'f')


def calculate_vcnt_obar_speed(t, k, agg):
    return mean_vector_speed(t, k, agg, 'o')


def calculate_vcnt_vdiff_speed(t, k, agg):
    du = mean(t, k, agg, 'ufbar') - mean(t, k, agg, 'uobar')
    dv = mean(t, k, agg, 'vfbar') - mean(t, k, agg, 'vobar')
    return R(speed(du, dv))


def calculate_vcnt_vdiff_dir(t, k, agg):
    du = mean(t, k, agg, 'ufbar') - mean(t, k, agg, 'uobar')
    dv = mean(t, k, agg, 'vfbar') - mean(t, k, agg, 'vobar')
    return R(direction(-du, -dv))


def calculate_vcnt_speed_err(t, k, agg):
    return R(mean_vector_speed(t, k, agg, 'f') - mean_vector_speed(t, k, agg, 'o'))


def calculate_vcnt_speed_abserr(t, k, agg):
    return R(abs(calculate_vcnt_speed_err(t, k, agg)))


def calculate_vcnt_dir_err(t, k, agg):
    fs = mean_vector_speed(t, k, agg, 'f')
    uf = mean(t, k, agg, 'ufbar') / fs
    vf = mean(t, k, agg, 'vfbar') / fs
    os = mean_vector_speed(t, k, agg, 'o')
    uo = mean(t, k, agg, 'uobar') / os
    vo = mean(t, k, agg, 'vobar') / os
    return R(direction(vf * uo - uf * vo, uf * uo + vf * vo))


def calculate_vcnt_dir_abser(t, k, agg):
    return R(abs(calculate_vcnt_dir_err(t, k, agg)))


def limited(r):
    if r > 1:
        return 1
    if r < -1:
        return -1
    return r


def calculate_vcnt_anom_corr(t, k, agg):
    n = T(t, k, agg)
    f = S(t, k, 'fa_speed_bar')
    o = S(t, k, 'oa_speed_bar')
    v = (n * S(t, k, 'uvffabar') - f * f) * (n * S(t, k, 'uvooabar') - o * o)
    return limited((n * S(t, k, 'uvfoabar') - f * o) / sqrt(v))


def calculate_vcnt_anom_corr_uncntr(t, k, agg):
    return limited(S(t, k, 'uvfoabar') / sqrt(S(t, k, 'uvffabar') * S(t, k, 'uvooabar')))
