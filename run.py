import sys
from importlib.machinery import SourceFileLoader
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / 'ref'))
sys.path.insert(0, '/repo')

# never run stale bytecode of a changed tree: modules of /repo are always compiled from source
_orig = SourceFileLoader.get_code


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith('/repo/'):
        return self.source_to_code(self.get_data(path), path)
    return _orig(self, fullname)


SourceFileLoader.get_code = _get_code

if __name__ == '__main__':
    from vlib.core import main

    sys.exit(main(sys.argv[1]))
