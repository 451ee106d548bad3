import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core
import threading
threading.stack_size(512 * 1024 * 1024)
rc = [2]


def go():
    try:
        rc[0] = core.main(sys.argv[1:])
    except SystemExit as e:
        rc[0] = e.code
    except BaseException:
        import traceback
        traceback.print_exc()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if isinstance(rc[0], int) else 2)
