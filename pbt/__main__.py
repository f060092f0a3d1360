import sys

sys.dont_write_bytecode = True

import warnings  # noqa: E402

warnings.simplefilter("ignore")

from . import engine  # noqa: E402
from .props import load  # noqa: E402


def run():
    props = load()
    if len(sys.argv) < 2 or sys.argv[1] not in props:
        print("usage: check ID [--replay FILE]; IDs: %s" % " ".join(sorted(props)), file=sys.stderr)
        return 2
    return engine.main(props[sys.argv[1]](), sys.argv[2:])


sys.exit(run())
