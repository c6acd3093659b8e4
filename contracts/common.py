"""Helpers shared by the executable contracts: machine descriptions, kernels, argument objects."""
import copy
import io
from collections import OrderedDict


def PU(*a):
    from kerncraft.prefixedunit import PrefixedUnit
    return PrefixedUnit(*a)


def close(x, y, rel=1e-9, absol=0.0):
    import math
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= rel * max(abs(x), abs(y)) + absol


BENCH_KERNELS = {
    'load': (1, 8, 0, 0, 0, 0), 'copy': (1, 8, 0, 0, 1, 8), 'update': (1, 8, 1, 8, 1, 8),
    'triad': (3, 24, 0, 0, 1, 8), 'daxpy': (2, 16, 1, 8, 1, 8)}


def machine_dict(levels=('L1', 'L2', 'L3', 'MEM'), cores=8, numa_cores=None, clock=2.7e9, cl=64,
                 results=None, cores_list=None, tput=None, **kw):
    """A complete, small machine description; everything relevant can be overridden."""
    from kerncraft import __version__
    numa_cores = numa_cores or cores
    cores_list = cores_list or list(range(1, cores + 1))
    hier = []
    sets = {'L1': 64, 'L2': 512, 'L3': 20480}
    shared = kw.get('shared', {'L3': cores, 'MEM': cores})
    tput = tput or {}
    for i, lv in enumerate(levels):
        d = OrderedDict([('level', lv), ('cores per group', shared.get(lv, 1))])
        if lv != 'MEM':
            c = OrderedDict([('sets', sets.get(lv, 1024)), ('ways', 8 if i < 2 else 16), ('cl_size', cl),
                             ('replacement_policy', 'LRU'), ('write_allocate', True), ('write_back', True)])
            if i + 1 < len(levels) and levels[i + 1] != 'MEM':
                c['load_from'] = c['store_to'] = levels[i + 1]
            d['cache per group'] = c
            d['size per group'] = PU(float(c['sets'] * c['ways'] * cl), 'B')
        else:
            d['size per group'] = None
        if i == 0:
            d['upstream throughput'] = ['architecture code analyzer', ['2D', '3D']]
        elif lv == 'MEM':
            d['upstream throughput'] = ['full socket memory bandwidth', 'half-duplex']
        else:
            d['upstream throughput'] = [PU(32.0, 'B/cy'), 'half-duplex']
        if lv in tput:
            d['upstream throughput'] = tput[lv]
        d['transfers overlap'] = False
        hier.append(d)
    kernels = {}
    for k, v in (kw.get('bench_kernels') or BENCH_KERNELS).items():
        kernels[k] = {'FLOPs per iteration': 0,
                      'read streams': {'streams': v[0], 'bytes': PU(float(v[1]), 'B')},
                      'read+write streams': {'streams': v[2], 'bytes': PU(float(v[3]), 'B')},
                      'write streams': {'streams': v[4], 'bytes': PU(float(v[5]), 'B')}}
    meas = {}
    for i, lv in enumerate(levels):
        meas[lv] = {}
        for tpc in kw.get('tpcs', (1,)):
            meas[lv][tpc] = {'threads per core': tpc, 'cores': list(cores_list),
                             'threads': [c * tpc for c in cores_list], 'results': {}}
            for k in kernels:
                if results:
                    r = results[lv][k] if tpc == 1 or not isinstance(results.get(tpc), dict) else results[tpc][lv][k]
                else:
                    bw = (100e9 / (i + 1)) * (1 + .1 * (hash_(k) % 5))
                    r = [bw * (c if lv != 'MEM' else min(c, 4)) for c in cores_list]
                meas[lv][tpc]['results'][k] = [PU(float(x), 'B/s') for x in r]
    d = {
        'kerncraft version': __version__, 'model name': 'test', 'model type': 'test', 'clock': PU(float(clock), 'Hz'),
        'sockets': 1, 'cores per socket': cores, 'threads per core': 1,
        'NUMA domains per socket': cores // numa_cores, 'cores per NUMA domain': numa_cores,
        'in-core model': OrderedDict([('OSACA', 'SNB'), ('IACA', 'SNB'), ('LLVM-MCA', '-mcpu=sandybridge')]),
        'isa': 'x86',
        'FLOPs per cycle': {'SP': {'total': 16, 'ADD': 8, 'MUL': 8}, 'DP': {'total': 8, 'ADD': 4, 'MUL': 4}},
        'compiler': OrderedDict([('gcc', '-O3 -march=corei7-avx -D_POSIX_C_SOURCE=200809L -lm'), ('icc', '-O3 -xAVX')]),
        'overlapping model': {'ports': {'OSACA': ['0', '0DV', '1', '2', '3', '4', '5']},
                              'performance counter metric': 'A:PMC0'},
        'non-overlapping model': {'ports': {'OSACA': ['2D', '3D']}, 'performance counter metric': 'T_nOL'},
        'cacheline size': PU(float(cl), 'B'),
        'memory hierarchy': hier,
        'benchmarks': {'kernels': kernels, 'measurements': meas},
    }
    d.update(kw.get('extra', {}))
    return d


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def machine(**kw):
    from kerncraft.machinemodel import MachineModel
    args = kw.pop('args', None)
    return MachineModel(machine_yaml=machine_dict(**kw), args=args)


class Args(object):
    """Command line arguments as the models read them."""
    def __init__(self, **kw):
        self.__dict__.update(dict(
            asm_block='auto', pointer_increment='auto', cores=1, unit='cy/CL', verbose=0, cache_predictor='LC',
            incore_model='OSACA', compiler=None, compiler_flags=None, latency=False, no_phenoecm=False,
            ignore_warnings=True, ecm_plot=None, define=[], store=None, json=None, iterations=10))
        self.__dict__.update(kw)


class Stub(object):
    """Plain object with the given attributes."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def kernel_code(code, mach=None, filename=None, **consts):
    from kerncraft.kernel import KernelCode
    k = KernelCode(code, mach or machine(), filename=filename)
    for n, v in consts.items():
        k.set_constant(n, v)
    return k


def snapshot(x):
    return repr(x)


def fast_osaca():
    """Keep OSACA's (trusted) machine models in memory instead of unpickling them for every call."""
    from osaca.semantics.hw_model import MachineModel as M
    if getattr(M, '_kc_fast', None) is None:
        M._kc_fast = {}
        real = M._get_cached

        def cached(self, filepath):
            if filepath not in M._kc_fast:
                M._kc_fast[filepath] = real(self, filepath)
            return M._kc_fast[filepath]
        M._get_cached = cached
