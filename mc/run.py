import sys
from mc.core import main
if __name__ == '__main__':
    import mc.core
    sys.exit(mc.core.main(sys.argv[1:]))
