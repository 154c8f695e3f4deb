"""Registry: analyses, and which of them decide which property."""
from engine import *

ANALYSES = {}
PROPS = {}
import meta
EXPLAIN = {k: v['explain'] for k, v in meta.M.items()}
LEVEL = {k: v['level'] for k, v in meta.M.items()}
TRUSTED = ['clang 18 front end and SROA (lowering C to the IR analysed)',
           'the abstract interpreter in /verif/sa (engine, linear domain, memory model)',
           'models of libc functions in sa/models.py', 'the specification classes sa/spec_*.py']
ASSUME = ['the analysed configuration is the one build.sh builds (NDEBUG, x86-64 data model, config.h from cmake)',
          'buffer offers and streams stay below 2^40 bytes per call; objects below 2^47 bytes',
          'the caller keeps to the documented stream contract']


def analysis(f):
    ANALYSES[f.__name__] = f
    return f


def result(eng, **kw):
    c = dict(eng.cov)
    c['by_tag'] = {k: list(v) for k, v in eng.bt.items()}
    c.update(kw)
    return dict(violations=eng.violations, cov=c)


def attach(e, eng):
    e.violations = eng.violations
    return e


def machine(cls):
    def run(mod, tier):
        e = Engine(mod)
        try:
            m = cls(e)
            m.start()
        except AnalysisError as x:
            raise attach(x, e)
        return result(e, states=m.nodes, outcomes={'%s -> %s' % k: v for k, v in m.outcomes.items()},
                      abstract_states=len(m.G), steps_analysed=m.steps)
    return run


def job(modname, cls, **attrs):
    def run(mod, tier):
        import importlib
        c = getattr(importlib.import_module(modname), cls)
        if attrs:
            c = type(cls, (c,), attrs)
        return machine(c)(mod, tier)
    return run


ANALYSES['patch_job'] = job('spec_patch', 'PatchMachine')
ANALYSES['sig_job'] = job('spec_sig', 'SigMachine')
LOAD = []
for _m, _k in ((0x72730136, 0), (0x72730146, 0), (0x72730137, 0), (0x72730137, 1), (0x72730147, 0), (0x72730147, 1)):
    _n = 'loadsig_job_%x_%d' % (_m, 16 * _k + 16)
    ANALYSES[_n] = job('spec_loadsig', 'LoadMachine', part=(_m, _k))
    LOAD.append(_n)
ANALYSES['delta_job'] = job('spec_delta', 'DeltaMachine')
ANALYSES['delta_slack'] = job('spec_delta', 'DeltaMachine', case='slack')
ANALYSES['emit'] = job('spec_delta', 'EmitUnit')
ANALYSES['rules'] = job('rules', 'Rules')
ANALYSES['messages'] = job('units', 'Messages')
ANALYSES['format'] = job('units', 'Format')
ANALYSES['filebuf'] = job('units_file', 'FileBuf')
ANALYSES['filesize'] = job('units_file', 'FileSize')
ANALYSES['drive'] = job('units_file', 'Drive')
ANALYSES['whole'] = job('units_whole', 'Whole')
ANALYSES['jobiter'] = job('units_job', 'JobIter')
ANALYSES['args'] = job('units_args', 'Args')
ANALYSES['rdiff'] = job('units_rdiff', 'Rdiff')
INDEX = ['index_%d' % _i for _i in range(4)]
for _i in range(4):
    ANALYSES[INDEX[_i]] = job('units_index', 'Index', part=_i)
DELTA = ['delta_job', 'delta_slack']
JOBS = ['patch_job', 'sig_job', LOAD[0]] + DELTA
PROPS.update({
    'C01': JOBS, 'C02': JOBS, 'C03': JOBS, 'C16': JOBS, 'C17': JOBS,
    'C04': ['patch_job'], 'C05': ['patch_job'], 'C06': ['patch_job'], 'C07': DELTA + ['emit'],
    'C08': ['patch_job', 'emit', 'delta_job', 'delta_slack'], 'C09': DELTA + ['emit'],
    'C10': ['sig_job'], 'C11': LOAD, 'C12': LOAD, 'C13': ['delta_job'], 'C15': ['delta_job'],
    'C25': ['patch_job', 'sig_job', 'emit'] + LOAD[:1] + DELTA,
})
PROPS['C06'] += ['filebuf', 'whole']
PROPS['C11'] = LOAD + ['args']
PROPS['C25'] += ['filebuf', 'whole']
PROPS.update({
    'C18': ['filebuf', 'drive', 'whole', 'patch_job'], 'C19': ['whole'] + JOBS, 'C20': ['whole', 'args'] + JOBS,
    'C24': ['args', 'filesize', 'whole', 'sig_job'], 'C29': ['filebuf', 'drive', 'whole'],
})
PROPS.update({'C21': ['rules'], 'C22': ['rules', 'whole'], 'C26': ['rules', 'messages'], 'C27': ['format']})
PROPS['C13'] += INDEX
for _p in ('C01', 'C02', 'C03', 'C16', 'C17'):
    PROPS[_p] = PROPS[_p] + ['jobiter']
PROPS['C20'] += INDEX[:1]
ANALYSES['weak'] = job('units_weak', 'Weak')
ANALYSES['compress'] = job('units_strong', 'Compress')
ANALYSES['feed'] = job('units_strong', 'Feed')
PROPS['C15'] += ['weak']
PROPS['C17'] = PROPS['C17'] + INDEX + ['weak', 'feed', 'filebuf', 'format']
PROPS['C20'] += ['weak', 'feed']
PROPS['C28'] = ['compress', 'feed']
PROPS.update({'C14': INDEX + LOAD[:1], 'C23': ['rdiff']})
