import sys, traceback
from .driver import replay_file

if __name__ == "__main__":
    try:
        sys.exit(replay_file(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
