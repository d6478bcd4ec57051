"""Server running under another interpreter (and hash seed): performs calls, returns reduced results."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    from harness import importer
    from harness.props import values
    while True:
        try:
            case = importer.receive(0)
        except EOFError:
            return
        importer.send(out, values.outcome(case))


if __name__ == '__main__':
    main()
