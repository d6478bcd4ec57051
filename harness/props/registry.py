"""Which module holds the cases of which property."""
import importlib

MODULES = {
    'P01': 'formats', 'P02': 'formats',
    'P03': 'edits', 'P04': 'edits', 'P05': 'edits', 'P06': 'edits',
    'P07': 'similarity', 'P08': 'similarity', 'P09': 'similarity', 'P28': 'similarity',
    'P10': 'matrices', 'P11': 'matrices',
    'P12': 'windows', 'P13': 'windows', 'P14': 'windows',
    'P15': 'pairwise', 'P16': 'pairwise',
    'P17': 'agreement', 'P18': 'agreement', 'P19': 'agreement',
    'P20': 'datasets', 'P21': 'files', 'P22': 'files', 'P23': 'files', 'P24': 'files',
    'P25': 'calls', 'P27': 'calls', 'P30': 'calls',
    'P26': 'imports', 'P29': 'values', 'P31': 'threads', 'P32': 'faults', 'P33': 'faults',
}

# cases of the quick tier, as a multiple of each family's own number (those of the thorough tier stay)
SCALE = {'P31': 1, 'P32': 1, 'P33': 1, 'P02': 2, 'P10': 4, 'P15': 4, 'P16': 2, 'P18': 3, 'P19': 3, 'P21': 3, 'P24': 2, 'P25': 1, 'P26': 2,
         'P29': 2, 'P30': 3, 'P22': 8, 'P23': 8, 'P27': 8}


def subs(prop):
    found = importlib.import_module('harness.props.' + MODULES[prop]).SUBS[prop]
    for sub in found:
        sub.quick = sub.quick * SCALE.get(prop, 5)
    return found
