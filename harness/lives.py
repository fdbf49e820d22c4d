"""Several lives of one run: every life is a forked process which is interrupted as the plan says."""
import json
import os
import pickle
import signal
import sys
import threading
import time
import traceback

KILLED = 77
EXIT = 91
HOOKS = dict(rename=None, open=None)


def audit(event, args):
    if event == "os.rename":
        f = HOOKS["rename"]
        if f is not None:
            f(args)
    elif event == "open":
        f = HOOKS["open"]
        if f is not None:
            f(args)


sys.addaudithook(audit)


def damage(fn, how, r):
    if not os.path.exists(fn):
        return False
    data = open(fn, "rb").read()
    if how == "empty":
        data = b""
    elif how == "cut":
        data = data[:int(len(data) * r)]
    elif how == "garbage":
        data = bytes((x * 7 + 13) % 256 for x in data[:500])
    elif how == "foreign":
        data = pickle.dumps(dict(a=1))
    open(fn, "wb").write(data)
    return True


def action(kind):
    """What a fault does in the main process of a life"""
    main = os.getpid()
    return dict(kill=lambda: os._exit(KILLED), term=lambda: os.kill(main, signal.SIGTERM), int=lambda: os.kill(main, signal.SIGINT),
                alrm=lambda: os.kill(main, signal.SIGALRM)).get(kind)


def after(seconds, act):
    t = threading.Timer(seconds, act)
    t.daemon = True
    t.start()


def fork(fn, err, timeout=120):
    """Run fn in a forked process of its own group: returns exit code (negative: signal, None: timed out) and stderr."""
    pid = os.fork()
    if pid == 0:
        code = 5
        try:
            os.setpgid(0, 0)
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            fn()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 6
        except BaseException as e:
            traceback.print_exc()
            code = 8 if type(e).__name__ == "ResumeError" else 7
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    end = time.time() + timeout
    code = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            break
        if time.time() > end:
            break
        time.sleep(0.005)
    t1 = time.time()
    alive = 0
    if code is not None and code != KILLED:
        # workers which outlive their main process
        end = time.time() + 1.0
        while time.time() < end:
            alive = group(pid)
            if not alive:
                break
            time.sleep(0.01)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if code is None:
        os.waitpid(pid, 0)
    return code, open(err).read()[-6000:], t1, alive


def group(pgid):
    """Number of live processes of the group"""
    n = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                n += int(f[2]) == pgid and f[0] != "Z"
            except (OSError, IndexError):
                pass
    return n


def stamp(fn):
    return (os.stat(fn).st_ino, os.stat(fn).st_mtime_ns) if os.path.exists(fn) else None


def main(drive):
    job = json.load(open(sys.argv[1]))
    out = drive(job)
    json.dump(out, open(sys.argv[2], "w"))
