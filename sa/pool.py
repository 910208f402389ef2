"""Run independent analyses in forked workers with a time and memory limit each."""
import os
import pickle
import resource
import select
import signal
import sys
import time


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def _child(fn, item, w, seconds, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        sys.setrecursionlimit(6000)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(seconds)
        try:
            r = ('ok', fn(item))
        except Timeout:
            r = ('timeout', 'no answer within %d s' % seconds)
        except MemoryError:
            r = ('timeout', 'memory limit')
        except RecursionError:
            r = ('timeout', 'recursion limit')
        except Exception as e:
            import traceback
            r = ('error', traceback.format_exc() if not getattr(e, 'short', False) else str(e), type(e).__name__)
        signal.alarm(0)
        data = pickle.dumps(r)
        with os.fdopen(w, 'wb') as f:
            f.write(data)
    except BaseException:
        pass
    os._exit(0)


def run(fn, items, seconds=60, mem=3 << 30, procs=None):
    """[(status, value)] aligned with items"""
    procs = procs or min(8, os.cpu_count() or 1)
    out = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(fn, items[i], w, seconds, mem)
            os.close(w)
            live[r] = [i, pid, b'', time.time()]
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            d = os.read(r, 1 << 16)
            if d:
                live[r][2] += d
                continue
            i, pid, buf, t0 = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(buf)
            except Exception:
                out[i] = ('timeout', 'the worker died')
        now = time.time()
        for r in list(live):
            i, pid, buf, t0 = live[r]
            if now - t0 > seconds + 15:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[i] = ('timeout', 'killed after %d s' % (now - t0))
    return out
