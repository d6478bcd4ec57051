"""What makes a case of a property non-trivial (shown in the evidence)."""
RULES = {
    'P01': 'a segmentation of at least two segments (conversions), or a text with at least one boundary symbol; distinct cases',
    'P02': 'the two segmentations differ (pairs), or the dataset holds two differing codings; distinct cases',
    'P03': 'the two boundary strings differ, so that at least one edit is required; distinct (strings, n_t)',
    'P04': 'the two boundary strings differ, so that at least one edit is required; distinct (strings, n_t)',
    'P05': 'the two segmentations (or parts concatenated) differ; distinct cases',
    'P06': 'the two segmentations differ; distinct cases',
    'P07': 'the two segmentations differ; distinct cases',
    'P08': 'the two segmentations differ; distinct cases',
    'P09': 'the two segmentations differ, so that a cell other than a match is filled; distinct cases',
    'P10': 'an average strictly between 0 and 1; distinct cases',
    'P11': 'more than two operations of which at least one writes a cell; distinct histories',
    'P12': 'the segmentations differ and at least one window fits; distinct cases',
    'P13': 'the segmentations differ and at least one window is compared; distinct cases',
    'P14': 'more than one mass is averaged (or, with two collections, their sizes differ); distinct cases',
    'P15': 'more than one entry is expected; distinct cases',
    'P16': 'more than one value and a positive variance; distinct cases',
    'P17': 'the coders do not agree completely; distinct datasets and options',
    'P18': 'the coders do not agree completely and expected agreement is neither 0 nor 1, or the dataset must be refused; distinct cases',
    'P19': 'the coders do not agree completely; distinct datasets, renamings and orders',
    'P20': 'the history adds or extends datasets at least once and at least one dataset holds codings; distinct histories',
    'P21': 'at least one written dataset holds items; distinct sequences of writes',
    'P22': 'every distinct file content (labels tell accepted from rejected ones)',
    'P23': 'the file holds at least one row of data; distinct files',
    'P24': 'the tree holds at least one data file with a coding; distinct trees',
    'P25': 'the history makes more than two calls, each compared with the same call made first in a fresh process (or, in the families orders and alike, with the same calls in another order); distinct histories',
    'P26': 'at least two uses of names or modules in one fresh process; distinct sequences',
    'P27': 'every case must be rejected; distinct cases',
    'P28': 'at least one edit is weighed; distinct cases',
    'P29': 'the call is defined and was made with equal but differently made arguments, or under another interpreter; distinct cases',
    'P30': 'the same call is made in at least two ways and compared; distinct cases',
    'P31': 'the threads were switched at least twice inside the package; distinct calls and schedules',
    'P32': 'at least one call was in fact stopped, by an interrupt or by a supplied function that raised; distinct histories',
    'P33': 'a read or write was made to fail (a file cut off, a write stopped), on a file of more than 60 bytes where one is written or cut; distinct cases',
}
ASSUMPTIONS = {
    'P07': ["weighting functions other than the documented ones return exact numbers"],
    'P09': ["addition cells as the repository's own tests pin them: [None][t] for side a, [t][None] for side b"],
    'P18': ['coefficients are compared only where expected agreement is below 1 (they are undefined otherwise)'],
    'P19': ['coefficients are compared only where expected agreement is below 1 (they are undefined otherwise)'],
    'P22': ["the interpreter's json module is the reference for what is valid JSON"],
    'P24': ['the order in which the operating system lists files is not controlled'],
    'P25': ['a fresh process is a fork of one in which the package was imported but no function of it called'],
    'P26': ['a fresh process is a fork of an interpreter that has not imported the package'],
    'P31': ['threads are switched between lines, or between instructions, of the package (not inside library functions); a fresh process per run'],
    'P32': ['a call is stopped between lines, or between instructions, of the package (not inside library functions)',
            'a dataset that a loader or += was extending when stopped may hold a part of what was to be added'],
    'P33': ['resource limits stand for a full disk and a full table of open files, /proc/self/mem for a disk that cannot be read'],
    'P29': ['CPython 3.12 can run everything but the file readers (open mode rU); those are compared on PyPy only'],
}
COMMON = ["PyPy 3.9 (the interpreter the repository's tests use) with PYTHONHASHSEED=0, source imported from /repo at run time",
          'nothing is proved: the property holds on the cases explored']
