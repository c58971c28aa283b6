"""Bootstrap resampling and intervals."""
import multiprocessing
import numpy as np
import scipy.sparse as sparse


class Results:
    """An interval around a value: the lower bound is the lower one; no data or distribution attached."""

    def __init__(self, low, value, high):
        self.lower_bound = low
        self.upper_bound = high
        self.value = value
        self.values = None
        self.distributions = None
        if low is not None and high is not None and low > high:
            self.lower_bound = high
            self.upper_bound = low


def init(self, lower_bound, value, upper_bound):
    self.lower_bound = lower_bound
    self.upper_bound = upper_bound
    self.value = value
    self.values = None
    self.distributions = None
    if lower_bound is not None and upper_bound is not None and lower_bound > upper_bound:
        self.lower_bound = upper_bound
        self.upper_bound = lower_bound


def same(members):
    """No two non-missing members differ."""
    if members.size == 0:
        return True
    try:
        return len(np.unique(members[members != np.array([None])])) <= 1
    except TypeError:
        return False


def interval(members, value, alpha, method):
    if value is None:
        return Results(None, None, None)
    present = members[members != np.array([None])]
    if method == 'pivotal':
        return Results(2 * value - np.percentile(present, 100 * (1 - alpha / 2)), value, 2 * value - np.percentile(present, 100 * (alpha / 2)))
    if method == 'perc':
        if same(members):
            return Results(None, value, None)
        return Results(np.percentile(present, 100 * (alpha / 2), method='linear'), value, np.percentile(present, 100 * (1 - alpha / 2), method='linear'))
    return Results(None, None, None)


def interval_eclv(members, value, alpha, method):
    """An interval of its own at each cost-loss ratio."""
    if value is None:
        return Results(None, None, None)
    curves = np.array([m['V'].tolist() for m in members[members != np.array([None])]])
    low = []
    high = []
    for i in range(len(value['cl'])):
        column = curves[:, i]
        a = None
        b = None
        if method == 'pivotal':
            a = 2 * value['V'][i] - np.percentile(column, 100 * (1 - alpha / 2))
            b = 2 * value['V'][i] - np.percentile(column, 100 * (alpha / 2))
        elif method == 'perc' and not same(column):
            a = np.percentile(column, 100 * (alpha / 2), method='linear')
            b = np.percentile(column, 100 * (1 - alpha / 2), method='linear')
        low.append(a)
        high.append(b)
    return Results(low, value, high)


def valid(values_lists):
    """Arrays of one kind and shape."""
    first = values_lists[0]
    if not isinstance(first, sparse.csr_matrix) and not isinstance(first, np.ndarray):
        raise ValueError('arrays')
    for values in values_lists[1:]:
        if not isinstance(values, type(first)) or first.shape != values.shape:
            raise ValueError('arrays')


def estimate(values, stat_func, alpha=0.05, num_iterations=1000, iteration_batch_size=None, num_threads=1, ci_method='perc', save_data=True,
             save_distributions=False, block_length=1, eclv=False):
    value = stat_func(values)[0]
    members = distribution([values], [stat_func], num_iterations, iteration_batch_size, num_threads, block_length)[0]
    if eclv:
        r = interval_eclv(members, value, alpha, ci_method)
    else:
        r = interval(members, value, alpha, ci_method)
    if save_data:
        r.values = values
    if save_distributions:
        r.distributions = members.flatten('F')
    return r


def estimate_mode(values, cases, stat_func, alpha=0.05, num_iterations=1000, iteration_batch_size=None, num_threads=1, ci_method='perc', save_data=True,
                  save_distributions=False, block_length=1):
    value = stat_func(values[np.in1d(np.asarray(values['case']), cases.flatten())].to_numpy())[0]
    members = distribution([cases], [stat_func], num_iterations, iteration_batch_size, num_threads, block_length)[0]
    r = interval(members, value, alpha, ci_method)
    if save_data:
        r.values = values
    if save_distributions:
        r.distributions = members.flatten('F')
    return r


def distribution(values_lists, stat_funcs, iterations, batch, threads, block_length=1):
    """All replicates, from one worker, or from several workers with a seed each drawn from the run's generator."""
    valid(values_lists)
    if batch is None:
        batch = iterations
    iterations, batch, threads = int(iterations), int(batch), int(threads)
    if threads == -1:
        threads = multiprocessing.cpu_count()
    if threads <= 1:
        return simulate(values_lists, stat_funcs, iterations, batch, None, block_length)
    pool = multiprocessing.Pool(threads)
    each = np.ceil(iterations / threads)
    jobs = [pool.apply_async(simulate, (values_lists, stat_funcs, each, batch, seed, block_length))
            for seed in np.random.randint(0, 2 ** 32 - 1, threads)]
    results = np.hstack([job.get() for job in jobs])
    pool.close()
    return results


def simulate(values_lists, stat_funcs, iterations, batch, seed, block_length=1):
    """The statistic of every replicate, in batches that add up to the requested number."""
    if seed is not None:
        np.random.seed(seed)
    iterations, batch = int(iterations), int(batch)
    results = [[] for _ in values_lists]
    for start in range(0, iterations, batch):
        samples = resample(values_lists, min(batch, iterations - start), block_length)
        for i in range(len(samples)):
            if i < len(stat_funcs):
                results[i].extend(stat_funcs[i](samples[i]))
    return np.array(results)


def resample(values_lists, iterations, block_length=1):
    """Row numbers drawn with replacement, as many as there are rows; in blocks only the first of a block is drawn, the others follow it in a circle."""
    n = values_lists[0].shape[0]
    drawn = np.random.choice(n, (iterations, n), replace=True)
    if block_length > 1:
        rows = []
        for r in range(iterations):
            row = []
            for i in range(n):
                offset = i % block_length
                row.append((drawn[r][i - offset] + offset) % n)
            rows.append(row)
        drawn = np.array(rows)
    return [values[drawn] for values in values_lists]
