"""One forked process per task, bounded in number, time and (soft) memory; a dying task never hangs."""
import multiprocessing as mp
import os
import signal
import time
import traceback


def _child(conn, f, arg, mem_gb):
    try:
        import resource
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        os.setpgrp()
    except Exception:
        pass
    try:
        conn.send(("ok", f(arg)))
    except MemoryError:
        conn.send(("err", "out of memory"))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
    finally:
        conn.close()
        os._exit(0)


def run(f, tasks, n=8, limit=300, mem_gb=None, overall=None):
    """yields (task, 'ok'|'err', value); limit: seconds per task (or a function of the task)"""
    ctx = mp.get_context("fork")
    t_start = time.time()
    todo = list(tasks)
    live = []
    while todo or live:
        while todo and len(live) < n:
            t = todo.pop(0)
            if overall and time.time() - t_start > overall:
                yield t, "err", "not started: overall time limit"
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, f, t, mem_gb), daemon=True)
            p.start()
            b.close()
            live.append((p, a, t, time.time()))
        if not live:
            break
        mp.connection.wait([x[1] for x in live], timeout=0.5)
        rest = []
        for p, a, t, t0 in live:
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except (EOFError, OSError):
                    done = ("err", f"task died (exit code {p.exitcode})")
            elif not p.is_alive():
                done = ("err", f"task died (exit code {p.exitcode})")
            elif time.time() - t0 > (limit(t) if callable(limit) else limit) or (overall and time.time() - t_start > overall + 30):
                done = ("err", "timeout")
            if done is None:
                rest.append((p, a, t, t0))
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
            if p.is_alive():
                p.kill()
            p.join(5)
            a.close()
            yield t, done[0], done[1]
        live = rest
