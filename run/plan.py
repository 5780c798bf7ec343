"""Which recorded behaviours and which models decide a property."""
from sources import Families as F

S = 'SimplifyTrace'


def simp(*fams, quick=24000, keep=14000):
    return [F(fams, S, quick, keep)]


def worlds(*fams, quick=40000, keep=4000, tkeep=16000):
    return [F(['enum' + f for f in fams], S, quick, keep, tkeep=tkeep, whole=True)]


def large(*fams, quick=1200, keep=240):
    return [F(list(fams), S, quick, keep, thorough=16000, tkeep=1200)]


def parts(*fams, quick=24000, keep=8000):
    return [F(fams, 'PartsTrace', quick, keep)]


PLAN = {
    'C01': dict(src=simp('mix', 'dp', 'agg', 'self', 'fcj', 'fc', 'con', 'degen') + worlds('avoid', 'class', 'vert', 'con') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCClass', ('quick', 'thorough')), ('MCAlgo', 'MCClass42', ('thorough',))]),
    'C02': dict(src=simp('agg', 'con', 'mix', 'self', 'stake') + worlds('avoid', 'vert', 'con') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCClass', ('quick', 'thorough')), ('MCAlgo', 'MCCon', ('thorough',))]),
    'C03': dict(src=simp('dp') + large('long')),
    'C04': dict(src=simp('self', 'mix', 'degen') + worlds('vert') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCJunc', ('quick', 'thorough')), ('MCAlgo', 'MCVert', ('thorough',))]),
    'C05': dict(src=simp('self', 'mix', 'degen') + worlds('vert') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCJunc', ('quick', 'thorough')), ('MCAlgo', 'MCVert', ('thorough',))]),
    'C06': dict(src=simp('fcj', 'mix', 'degen') + worlds('junc') + large('crowd'),
                mc=[('MCAlgo', 'MCJunc', ('quick', 'thorough'))]),
    'C07': dict(src=simp('avoid', 'touch', 'stake', quick=30000, keep=12000) + worlds('avoid') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCAvoid4', ('quick', 'thorough')), ('MCAlgo', 'MCAvoid5a', ('thorough',))]),
    'C08': dict(src=simp('fc', 'touch', quick=30000, keep=12000) + worlds('class', quick=80000) + large('crowd'),
                mc=[('MCAlgo', 'MCClass', ('quick', 'thorough')), ('MCAlgo', 'MCClass42', ('thorough',))]),
    'C09': dict(src=simp('con', 'degen', 'mix') + worlds('con') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCCon', ('thorough',))]),
    'C10': dict(src=simp('con', 'mix') + worlds('con') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCCon', ('thorough',))]),
    'C11': dict(src=simp('con', 'mix') + worlds('con') + large('long', 'crowd'),
                mc=[('Chain', 'MCChain4', ('quick', 'thorough')), ('Chain', 'MCChain', ('thorough',)),
                    ('MCAlgo', 'MCCon', ('thorough',))]),
    'C12': dict(src=simp('stake', 'agg', 'con', 'self') + worlds('avoid', 'class', 'con') + [F(['meta'], 'RunsTrace', 10000, 4000)] + large('long', 'crowd')),
    'C29': dict(src=simp('agg', 'mix', 'con', 'self') + worlds('vert', 'con') + large('long', 'crowd')),
    'C30': dict(src=simp('touch', 'avoid', 'stake', 'fc', quick=30000, keep=12000) + worlds('avoid', 'class') + large('long', 'crowd'),
                mc=[('MCAlgo', 'MCNear4', ('quick', 'thorough')), ('MCAlgo', 'MCAvoid5a', ('thorough',))]),
    'C31': dict(src=[F(['algo'], 'AlgoTrace', 12000, 800, accept=True, tkeep=10000),
                     F(['enumavoid', 'enumclass', 'enumvert', 'enumjunc', 'enumcon'], 'AlgoTrace', 60000, 800, accept=True,
                       whole=True, tkeep=12000),
                     F(['algobig'], 'AlgoTrace', 8000, 8, accept=True, most=60, tkeep=8)],
                mc=[('MCAlgo', 'MCClass', ('quick', 'thorough'))]),
    'C13': dict(src=parts('rel', quick=40000, keep=12000),
                mc=[('Chain', 'MCChain4', ('quick', 'thorough')), ('Chain', 'MCChain', ('thorough',))]),
    'C14': dict(src=[F(['det', 'sched'], 'RunsTrace', 1600, 1000),
                     F(['det', 'sched'], 'RunsTrace', 360, 120, race=True)],
                mc=[('Pool', 'MCPool', ('quick', 'thorough'))]),
    'C15': dict(src=[F(['inst'], 'InstanceTrace', 12000, 5000)]),
    'C16': dict(src=[F(['indep'], 'RunsTrace', 8000, 3000)]),
    'C17': dict(src=[F(['hdb', 'hdbbig'], 'HdbTrace', 3000, 1200)]),
    'C18': dict(src=[F(['hdb', 'hdbbig'], 'HdbTrace', 3000, 1200)]),
    'C19': dict(src=parts('split')),
    'C20': dict(src=parts('frag')),
    'C21': dict(src=[F(['que'], 'DequeTrace', 12000, 6000, accept=True, procs=2),
                     F(['questress'], 'DequeTrace', 300, 300, accept=True, race=True, procs=2)]),
    'C22': dict(src=[F(['cli'], 'FilesTrace', 1600, 1600, tool=True)]),
    'C23': dict(src=[F(['cli'], 'FilesTrace', 1600, 1600, tool=True)]),
    'C24': dict(src=[F(['degen', 'mix', 'con', 'fc', 'self', 'avoid', 'fcj', 'stake'], 'Total', 60000, 4000),
                     F(['long', 'crowd'], 'Total', 3000, 200)]),
    'C25': dict(src=parts('junc')),
    'C26': dict(src=parts('knn', 'nodenb', keep=6000)),
    'C27': dict(src=parts('offs')),
    'C28': dict(src=[F(['reader'], 'FilesTrace', 12000, 6000)]),
}
