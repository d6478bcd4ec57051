#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('round-trip and reference-model PBT, small scope enumerated', 'An independent boundary-list model of the formats is the oracle; all segmentations up to 10 units are enumerated, larger ones generated.'),
 'P02': ('metamorphic PBT across formats', 'Every metric is called on the same pair or dataset written in each format and the results compared.'),
 'P03': ('conservation-law PBT, small scope enumerated', 'Edits are re-applied as an accounting identity per position and type; short strings are enumerated.'),
 'P04': ('PBT against a rule checker and reference implementation', 'An independent implementation of the greedy rule and an exhaustive minimum pairing are the oracle.'),
 'P05': ('metamorphic PBT (swap, shift, pad, concatenate, raise n_t)', 'Relations between two runs; no model is trusted.'),
 'P06': ('PBT against recomputed statistics and identities', 'Statistics are recomputed from boundary sets.'),
 'P07': ('PBT against reference model', 'B is recomputed in exact rationals from model edits.'),
 'P08': ('PBT against reference model', 'S is recomputed in exact rationals from model edits.'),
 'P09': ('PBT against reference model, conservation identity', 'Cells are recomputed from the edits and each boundary is accounted for.'),
 'P10': ('PBT against exact-rational definitions', 'Definitions evaluated in Fractions over the written cells.'),
 'P11': ('stateful model-based PBT', 'Histories are replayed on a dict model after every step.'),
 'P12': ('PBT against brute-force definition, small scope enumerated', 'Pk is recomputed window by window from unit labels.'),
 'P13': ('PBT against brute-force definition, small scope enumerated', 'WindowDiff is recomputed window by window from boundary positions.'),
 'P14': ('PBT against exact-rational definition', 'Mean and half-even rounding recomputed in Fractions; implicit use compared with explicit window_size.'),
 'P15': ('differential PBT: dataset entry against direct pair call', 'The key set is specified independently; values are compared with direct calls.'),
 'P16': ('PBT against high-precision definitions and metamorphic relations', 'Recomputed in exact fractions.'),
 'P17': ('PBT against reference model', 'Pooled sums recomputed from direct pair calls and boundary counts.'),
 'P18': ('PBT against reference model', 'Coefficients recomputed in exact rationals from boundary counts.'),
 'P19': ('metamorphic PBT (rename, reorder) and bounds', 'Relations between runs, and the identity-of-codings characterisation of 1.'),
 'P20': ('stateful model-based PBT', 'Histories of dataset operations replayed on a dict model, aliasing probed by mutation.'),
 'P21': ('round-trip PBT over sequences of writes and reads', 'Files are written and read in a scratch folder.'),
 'P22': ('structured and byte-mutation fuzzing of JSON files', 'json.loads plus an independent validator decide which documents load; open descriptors are counted.'),
 'P23': ('grammar-based PBT of TSV files', 'The generator knows what each file contains.'),
 'P24': ('PBT over generated directory trees', 'A model walks the generated tree description.'),
 'P25': ('stateful differential PBT against fresh processes', 'Every call of a history is compared with the same call made first in a forked fresh process; arguments are snapshotted.'),
 'P26': ('PBT over import and access orders in fresh processes', 'All names first, all pairs sampled, random sequences.'),
 'P27': ('negative PBT over incomparable arguments', 'Generated calls which must raise.'),
 'P28': ('PBT with exact-rational definitions and recording weighting functions', 'Supplied functions record what they are called with.'),
 'P29': ('differential PBT: re-made equal arguments, CPython against PyPy, hash seeds', 'Same call with equal but distinct objects and in another interpreter.'),
 'P31': ('schedule fuzzing: deterministic interleavings of generated calls against the same calls alone', 'Threads are switched at chosen lines or instructions by a trace function, so that every schedule replays; nested calls are made from supplied functions.'),
 'P32': ('fault-injection PBT: interrupts at any line, raising functions, against a fresh process', 'An interrupt is raised by a trace function at a chosen line or instruction; later calls are compared with the same calls in a forked fresh process.'),
 'P33': ('fault-injection PBT of reads and writes', 'Resource limits stop writes at any byte, files are cut at every byte, unreadable paths are placed in trees.'),
 'P30': ('metamorphic PBT across call styles', 'Same request in every call style and with defaults spelled out.'),
}
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': [
    {'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
     'technique': t, 'level': 'exploration',
     'level_note': n + ' Generated-input search: no violation on the cases explored, not a proof. Trusts the oracle in harness/ and the PyPy interpreter.'}
    for p, (t, n) in sorted(T.items())],
    'not_applicable': [],
    'notes': 'No hooks in /repo. Checks import segeval from /repo at run time; nothing is built. Replays: ./check PXX --replay FILE.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
