import sys
import threading
import warnings

warnings.simplefilter('ignore')


def _go(out):
    from .ctx import main
    out.append(main())


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=_go, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 3)
