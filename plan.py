# What the check of each property does.
#   models: (module, configuration or None, {tier: {constant: value}}, tiers)
#   zones:  numbers of zones for which Apalache decides CprForAll
#   steps:  'calls' (generated calls validated by TLC), or a function of steps.py
BOTH = ('quick', 'thorough')
THOROUGH = ('thorough',)


def names(*n):
    return '{' + ','.join('"%s"' % x for x in n) + '}'


def numbers(n):
    return '{' + ','.join(map(str, range(n))) + '}'


def layout(*n):
    """The layout of registers: all the ways of changing up to 2 bits of the bases, 3 for some of them when thorough"""
    return ('MC_Registers', None, {'quick': {'Names': names(*n), 'Depth': 2}, 'thorough': {'Names': names(*n), 'Depth': 3}}, BOTH)


FRAME = ('MC_Frame', None, {'thorough': {'Third': numbers(32), 'Fourth': numbers(256)}}, BOTH)
PARITY112 = ('MC_Parity', None, {'thorough': {'MaxErrors': 4, 'MaxBurst': 18}}, BOTH)
SHIFT = ('MC_Shift', None, {'thorough': {'Rows': numbers(64)}}, BOTH)
PARITY56 = ('MC_Parity', None, {'quick': {'Length': 56}, 'thorough': {'Length': 56, 'MaxErrors': 5, 'MaxBurst': 20}}, BOTH)
ALTITUDE = ('MC_Altitude', None, {}, BOTH)
IDENTITY = ('MC_Identity', None, {}, BOTH)
ADSB = ('MC_Adsb', None, {}, BOTH)
COMMB = ('MC_CommB', None, {}, BOTH)
VELOCITY = ('MC_Velocity', None, {}, BOTH)
DENSE = {'Latitudes <-': 'AllLatitudes', 'Longitudes <-': 'AllLongitudes'}
CPR = ('MC_Cpr', None, {'thorough': DENSE}, BOTH)
CPRS = ('MC_Cpr', 'MC_CprSurface', {'thorough': DENSE}, BOTH)
GEO = ('MC_Geo', None, {'thorough': {'Grid': 15, 'Fine': 1}}, BOTH)
ALL = ('bds05', 'bds06', 'bds07', 'bds08', 'bds09', 'bds10', 'bds17', 'bds20', 'bds30', 'bds40', 'bds44', 'bds44v0', 'bds45', 'bds45v0', 'bds50',
       'bds60', 'bds61n', 'bds61e', 'bds61a', 'bds62t0', 'bds62t1', 'bds65v0', 'bds65a1', 'bds65a2', 'bds65s1', 'bds65s2', 'ra')

PLAN = {
    'P01': {'models': [FRAME]},
    'P02': {'models': [FRAME]},
    'P03': {'models': [PARITY112, PARITY56, SHIFT]},
    'P04': {'models': [ALTITUDE]},
    'P05': {'models': [IDENTITY]},
    'P06': {'models': [ADSB]},
    'P07': {'models': [layout('bds05'), ALTITUDE]},
    'P08': {'models': [ADSB]},
    'P09': {'models': [layout('bds06')]},
    'P10': {'models': [layout('bds08', 'bds20')]},
    'P11': {'models': [layout('bds09'), VELOCITY]},
    'P12': {'models': [layout('bds61n', 'bds61e', 'bds61a')]},
    'P13': {'models': [layout('bds62t0', 'bds62t1')]},
    'P14': {'models': [layout('bds65v0', 'bds65a1', 'bds65a2', 'bds65s1', 'bds65s2')]},
    'P15': {'models': [COMMB]},
    'P16': {'models': [layout('bds40', 'bds50', 'bds60')]},
    'P17': {'models': [layout('bds44', 'bds44v0', 'bds44v1', 'bds44v2', 'bds45', 'bds45v0')]},
    'P18': {'models': [layout('bds07', 'bds10', 'bds17')]},
    'P19': {'models': [layout('ra', 'bds30')]},
    'P20': {'models': [CPR], 'zones': {'quick': [60, 59, 2], 'thorough': range(2, 61)}},
    'P21': {'models': [CPRS], 'zones': {'quick': [60, 37, 3], 'thorough': range(2, 61)}},
    'P22': {'models': [CPR, CPRS], 'zones': {'quick': [60, 58, 17], 'thorough': range(2, 61)}},
    'P23': {'models': [GEO]},
    'P24': {'models': [('MC_Labels', None, {'quick': {'Names': names(*ALL), 'Depth': 2}, 'thorough': {'Names': names(*ALL), 'Depth': 3}}, BOTH)]},
    'P25': {'models': [('MC_Cli', None, {'thorough': {'Length': 3}}, BOTH)], 'steps': ['cli']},
    'P27': {'models': [('MC_Receiver', None, {'thorough': {'Length': 4, 'Kinds': names('position', 'name', 'reply4', 'status'), 'Damages': '{{7}}'}}, BOTH)], 'steps': ['calls', 'histories'], 'race': True, 'histories': {'quick': 16, 'thorough': 400}},
    'P28': {'models': [('MC_Codes', None, {'thorough': {'Codes': 255}}, BOTH), ALTITUDE]},
    'P26': {'models': [('MC_Callers', None, {'thorough': {'Length': 2}}, BOTH)], 'steps': ['calls', 'scan'], 'race': True},
}
