"""Constants mined from the sources under test, as a fuzzing dictionary."""
import ast
import os
from harness.core import REPO


def folded(node):
    """The value of an expression of constants such as 1 << 10, or None."""
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.BinOp):
        x, y = folded(node.left), folded(node.right)
        if x is not None and y is not None and abs(x) < 10 ** 6 and abs(y) < 64:
            try:
                return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Pow: lambda: x ** y,
                        ast.LShift: lambda: x << y}[type(node.op)]()
            except (KeyError, TypeError, ValueError, ArithmeticError):
                return None
    return None


def inverses(v):
    """Sizes of which one part is about a small share v, or all but that share."""
    for share in (v, 1 - v):
        if 1e-7 < share < 1:
            yield int(1 / share) + 1


def mine():
    ints, strings = set(), set()
    root = os.path.join(REPO, 'segeval')
    for folder, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith('.py') or name.endswith('test.py') or name == 'samples.py':
                continue
            try:
                with open(os.path.join(folder, name), encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(getattr(node, 'value', None), ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                v = folded(node) if isinstance(node, ast.BinOp) else None
                if v is None and isinstance(node, ast.BinOp) and isinstance(node.op, (ast.LShift, ast.RShift)):
                    v = folded(node.right)
                    v = 1 << v if isinstance(v, int) and 0 <= v < 24 else None
                if isinstance(v, int):
                    ints.update((v - 1, v, v + 1))
                if not isinstance(node, ast.Constant) or id(node) in docs:
                    continue
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.update((v - 1, v, v + 1))
                elif isinstance(v, float) and abs(v) < 1e9:
                    ints.update((int(v), int(v) + 1))
                    ints.update(inverses(v))
                elif isinstance(v, str):
                    if 0 < len(v) <= 24 and '\n' not in v and ' ' not in v.strip():
                        strings.add(v)
                    try:
                        ints.add(int(v))
                    except ValueError:
                        try:
                            ints.update(inverses(float(v)))
                        except ValueError:
                            pass
    return sorted(ints), sorted(strings)


def roots(ints):
    """Lengths of which the product of two, or the number of pairs, is near a constant."""
    out = set()
    for v in ints:
        if 36 <= v <= 10 ** 7:
            r = int(v ** 0.5)
            out.update((r, r + 1))
            r = int((2 * v) ** 0.5)
            out.update((r, r + 1, r + 2))
    # one beyond, so that something lies past the constant, and lengths of several such blocks
    return out | {v + d for v in ints if v > 6 for d in (1, 2)} | {2 * v + 1 for v in ints if 6 < v < 10 ** 5}


INTS, STRINGS = mine()
# The package as it was has no constants above 4: any greater one is worth trying as a size.
SIZES = sorted(i for i in set(INTS) | roots(INTS) if i > 6)

# Texts the package used to mention: any other is worth trying as a name.
KNOWN = set('''
- .csv .jsn .json .tsv 1 1.0 2 2.0.11 Addition Average BoundaryFormat COMPLETE_AGREEMENT ConfusionMatrix
Dataset Difference Enum Field HEARST_1997_STARGAZER HYPOTHESIS_STARGAZER KAZANTSEVA2012_G2 KAZANTSEVA2012_G5
LARGE_DISAGREEMENT SegEval Substitution Transposition __all__ __author__ __author_email__ __copyright__
__description__ __doc__ __docformat__ __file__ __iter__ __name__ __package__ __path__ __project__ __version__
__version_number__ a actual_agreement_linear additions b beta boundaries_all boundary_edit_distance
boundary_format boundary_similarity boundary_statistics boundary_types classification coder
compute_window_size convert_nltk_to_masses count_edits dataset ext fleiss_kappa_linear fleiss_pi_linear
fmeasure fnc fnc_compare fnc_round full_misses hyp hypothesis input_linear_mass_json input_linear_mass_tsv
item items json lamprier_et_al_2007_fix linear load_nested_folders_dict macro mass matches matrix micro n_t
nltk one_minus output.json output_linear_mass_json pbs permuted pk position precision rU recall ref reference
return_parts segeval segeval.agreement segeval.agreement.bias segeval.agreement.kappa segeval.agreement.pi
segeval.compute segeval.data segeval.data.jsonutils segeval.data.samples segeval.data.tsv segeval.format
segeval.ml segeval.similarity segeval.window segeval.window.pk segmentation_similarity segmentation_type sets
substitutions summarize transpositions tsv utf-8 w+ weight weight_a weight_s weight_s_scale weight_t
weight_t_scale window_diff window_size
'''.split()) | {'\t', ',', '2012-2013, '}
NEW_STRINGS = [x for x in STRINGS if x not in KNOWN][:60]
