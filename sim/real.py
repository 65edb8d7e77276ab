"""Untouched originals, captured before any seam is installed.  The harness itself only uses these."""
import builtins, os, sys, time, io, datetime, threading, _thread, random
open = builtins.open
_stdout = sys.__stdout__
def print(*a, **k):
    k.setdefault("file", sys.__stdout__)
    builtins.print(*a, **k)
time_time = time.time
monotonic = time.monotonic
perf_counter = time.perf_counter
sleep = time.sleep
allocate_lock = _thread.allocate_lock
start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident
datetime_cls = datetime.datetime
Random = random.Random
OS = {n: getattr(os, n) for n in (
    "open close read write fsync fdatasync lseek fstat ftruncate truncate stat lstat mkdir rmdir remove unlink rename "
    "replace listdir scandir access chmod utime link symlink readlink getpid getcwd chdir fork waitpid kill _exit pipe "
    "fdopen isatty urandom getppid fchmod chown cpu_count sched_getaffinity".split()) if hasattr(os, n)}
class _NS: pass
os_ = _NS()
for _k, _v in OS.items():
    setattr(os_, _k, _v)
