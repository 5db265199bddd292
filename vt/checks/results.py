"""Side effects (C19) and the shape of results (C20)."""
import atexit
import builtins
import contextlib
import copy
import csv
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import os
import pathlib
import pickle
import re
import resource
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from .. import tables as T
from ..common import *  # noqa: F403
from ..core import REPO, Check, HarnessError, Stream
from ..diff import show
from .inputs import JUNK, child_env, joined
from .state import LATE, RICH, okey, pool, rich
from .values import ASSUME, style_of

# --- C19 ---------------------------------------------------------------------
# events of the interpreter that mean nothing by themselves
HARMLESS = {"object.__getattr__", "object.__setattr__", "object.__delattr__", "sys._getframe", "sys._getframemodulename", "sys.unraisablehook", "id", "gc.get_objects", "gc.get_referents", "gc.get_referrers", "builtins.id", "sys._current_frames", "code.__new__", "function.__new__", "marshal.loads", "cpython.PyInterpreterState_New"}
FORBIDDEN_MEANING = "open, import, exec, compile, os.*, subprocess.*, socket.*, ctypes.*, shutil.*, tempfile.*, pickle.*, signal.* and every other audited operation"
_mon = {"sink": None, "on": False}
PATCHED = ["stat", "lstat", "access", "readlink", "getxattr", "system", "popen", "getenv", "kill", "write", "read", "pipe", "fork", "nice", "umask", "setsid", "statvfs", "mkfifo", "dup", "dup2", "close", "sync", "unsetenv"]


def monitor_on():
    """audit hook, and wrappers for the functions of os and time that raise no audit event"""
    if _mon["on"]:
        return
    _mon["on"] = True
    me = threading.get_ident

    def hook(name, args):
        s = _mon["sink"]
        if s is not None and name not in HARMLESS and len(s) < 200:
            s.append((name, tuple(a if isinstance(a, (str, int, bytes, type(None))) else repr(a)[:200] for a in args)))
    sys.addaudithook(hook)

    def wrap(mod, n):
        f = getattr(mod, n, None)
        if f is None:
            return

        def g(*a, **k):
            s = _mon["sink"]
            if s is not None and len(s) < 200:
                s.append((f"{mod.__name__}.{n}", tuple(map(repr, a))[:3]))
            return f(*a, **k)
        setattr(mod, n, g)
    for n in PATCHED:
        wrap(os, n)
    wrap(time, "sleep")
    wrap(builtins, "input")


@contextlib.contextmanager
def watching():
    events = []
    _mon["sink"] = events
    try:
        yield events
    finally:
        _mon["sink"] = None


class Tap:
    """file descriptors 1 and 2 and sys.stdout and sys.stderr lead into a file"""

    def __init__(self, ctx):
        self.path = os.path.join(ctx.scratch, f"tap{os.getpid()}")

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.fd = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.saved = [os.dup(1), os.dup(2)]
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        return self

    def size(self):
        sys.stdout.flush()
        sys.stderr.flush()
        return os.fstat(self.fd).st_size

    def text(self):
        return os.pread(self.fd, 2000, 0)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for f in (self.fd, *self.saved):
            os.close(f)


def rlimits():
    return {n: resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")}


def process_state(ctx):
    """process-wide settings and what is open"""
    u = os.umask(0o022)
    os.umask(u)
    tmpdir = tempfile.gettempdir()
    return {
        "environment": dict(os.environ), "working directory": os.getcwd(), "umask": u, "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "integer digits limit": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(), "signal handlers": {s: signal.getsignal(s) for s in signal.valid_signals()}, "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, []), "timers": (signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF)),
        "sys.path": list(sys.path), "sys.argv": list(sys.argv), "sys.meta_path": list(map(id, sys.meta_path)), "sys.path_hooks": len(sys.path_hooks), "modules": frozenset(sys.modules), "stdin, stdout, stderr": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), sys.gettrace(), sys.getprofile(), id(sys.breakpointhook)), "warning filters": list(map(str, warnings.filters)), "showwarning": id(warnings.showwarning),
        "logging": (logging.root.level, logging.root.disabled, list(map(id, logging.root.handlers)), logging.root.manager.disable), "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
        "threads": threading.active_count(), "open files": sorted(os.listdir("/proc/self/fd"))[:200].__len__(), "limits": rlimits(), "user and group": (os.getresuid(), os.getresgid(), os.getgroups(), os.getpriority(os.PRIO_PROCESS, 0)), "default encoding": (sys.getdefaultencoding(), sys.getfilesystemencoding()),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"}, "json": {k: id(v) for k, v in vars(json).items()}, "re": {k: id(v) for k, v in vars(re).items()}, "string methods": frozenset(dir(str)), "random": hash(repr(__import__("random").getstate())), "time zone": time.tzname,
        "time zone offset": time.timezone, "temporary directory": tmpdir, "temporary files": sorted(x for x in os.listdir(tmpdir) if not re.fullmatch(r"[a-z0-9_]{8}", x)),     # not the files with which starting processes try whether the directory is usable
        "scratch": sorted(os.listdir(ctx.scratch + "/c19")) if os.path.isdir(ctx.scratch + "/c19") else [], "children": children_of(),
        "exit callbacks": atexit._ncallbacks(), "stack size": stack_size(), "fault handler": faulthandler.is_enabled(), "socket timeout": socket.getdefaulttimeout(), "csv field limit": csv.field_size_limit(), "traceback limit": getattr(sys, "tracebacklimit", None),
        "decimal": repr(decimal.getcontext()), "float and int": (sys.float_repr_style, sys.flags), "loggers": {n: (x.level, x.disabled, x.propagate, len(x.handlers), len(x.filters)) for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger)},
        "functions of modules": functions_of(), "stdio": tuple((getattr(f, "encoding", None), getattr(f, "errors", None), getattr(f, "line_buffering", None)) for f in (sys.stdin, sys.stdout, sys.stderr)), "blocking": tuple(os.get_blocking(n) for n in (0, 1, 2) if open_fd(n)),
        "async hooks": tuple(map(id, sys.get_asyncgen_hooks())), "audit by names": (id(sys.setprofile), id(sys.settrace)), "dont_write_bytecode": sys.dont_write_bytecode, "sub-interpreter modules": len(sys.builtin_module_names),
        "random numbers of numpy": None if "numpy" not in sys.modules else hash(repr(sys.modules["numpy"].random.get_state())), "mime types": "mimetypes" in sys.modules and sys.modules["mimetypes"].inited, "float info": str(sys.hash_info),
    }


def stack_size():
    """reading it sets it to the default"""
    n = threading.stack_size()
    threading.stack_size(n)
    return n


def open_fd(n):
    try:
        os.fstat(n)
        return True
    except OSError:
        return False


def functions_of():
    """what the functions and classes of modules and the methods of the libraries' classes are: nobody may replace them"""
    out = {}
    for m in ("sys", "os", "os.path", "posixpath", "time", "io", "pathlib", "regex", "lark", "lark.lexer", "lark.tree", "lark.visitors", "tempfile", "random", "threading", "logging", "warnings", "collections", "functools", "itertools", "datetime", "copy", "pickle", "signal", "gc", "locale", "codecs"):
        if mod := sys.modules.get(m):
            for k, v in list(vars(mod).items()):
                if callable(v) and k != "_":
                    out[m, k] = id(v)
                    if isinstance(v, type) and m.startswith(("lark", "pathlib")):
                        for a, b in list(vars(v).items()):
                            if callable(b):
                                out[m, k, a] = id(b)
    return hash(frozenset(out.items()))


def children_of():
    try:
        with open(f"/proc/self/task/{threading.get_native_id()}/children") as f:
            return f.read().split()
    except OSError:
        return []


# texts that would have an effect if anything in them were followed, executed or formatted
def hostile(ctx, canary):
    c = canary
    paths = [c, "file://" + c, "../../../../" + c, "~/x", "$HOME/x", "${HOME}", "/etc/passwd", "\\\\\\\\host\\\\share", "http://127.0.0.1:9/x", "https://localhost:9", "/dev/stdin", "/proc/self/mem", "C:/x", "", ".", "..", "|touch " + c, ";touch " + c, "`touch " + c + "`", "$(touch " + c + ")", "%s%n", "{0.__class__}", "{}", "${env:PATH}", "%PATH%"]
    code = ["__import__(\\'os\\').system(\\'touch " + c + "\\')", "open(\\'" + c + "\\',\\'w\\')", "import antigravity", "exec", "eval", "!!python/object/apply:os.system [touch " + c + "]", "<!ENTITY x SYSTEM \\'file://" + c + "\\'>", "{\\\"$ref\\\": \\\"" + c + "\\\"}", "\\u0007", "__class__", "cos\\nsystem\\n(S\\'true\\'\\ntR."]
    docs = []
    for p in paths + code:
        docs += [f"var x = loadTextContent('{p}')\nvar y = loadJsonContent('{p}', '$.x', 'utf-8')\nvar z = loadFileAsBase64('{p}')\nvar w = loadYamlContent('{p}')\n", f"var x = readEnvironmentVariable('{p}')\nvar y = externalInput('{p}')\nvar z = sys.{p}()\n" if p.isalpha() else f"var x = readEnvironmentVariable('{p}')\n",
                 f"import * as a from '{p}'\nimport {{b}} from '{p}'\nimport '{p}'\nextension n with {{\n  path: '{p}'\n}}\n", f"module m '{p}' = {{\n  name: 'x'\n}}\n", f"module m './{p}' = {{}}\n", f"resource r '{p}@1' = {{\n  name: '{p}'\n}}\n",
                 f"var x = '{p}'\nvar y = '''\n{p}\n'''\nvar z = '${{{p}}}'\nparam q string = '{p}'\n@description('{p}')\noutput o string = json('{p}')\n", f"// {p}\n/* {p} */\n# {p}\n#disable-next-line {p}\nmetadata m = '{p}'\ntargetScope = '{p}'\n", f"targetScope = '{p}'\n"]
    names = ["__import__", "eval", "exec", "open", "compile", "input", "print", "exit", "quit", "help", "breakpoint", "getattr", "globals", "vars", "os", "sys", "self", "cls", "transform", "start", "__default__", "__init__", "__class__", "__getattr__", "__del__", "load_json_content", "custom_import", "visit_tokens", "getpass", "antigravity", "this", "test", "idlelib", "turtle", "child_resources", "imports", "add_line_numbers", "meta", "None", "__builtins__", "__mro__", "parse", "lark_parser", "system", "popen", "env", "environ"]
    for n in names:
        docs += [f"var {n} = {n}('x', {n}, 1)\n", f"@{n}('x')\nparam {n} string = {n}\n" if n.isalnum() else f"param {n} string\n", f"var x = a.{n}('x')\n", f"var x = a.{n}.{n}[{n}]::{n}\n", f"var x = sys.{n}('x')\nvar y = az.{n}()\n", f"type {n} = {n}\nfunc {n}({n} {n}) {n} => {n}\n", f"import {{{n} as {n}}} from '{n}'\n",
                 f"resource {n} '{n}/{n}@{n}' = {{\n  {n}: {n}\n  resource {n} '{n}' = {{}}\n}}\n", f"extension {n} with {{\n  {n}: {n}\n}} as {n}\n", f"module {n} 'br/{n}:{n}:{n}' = [for {n} in {n}: {{\n  {n}: {n}\n}}]\n", f"{n}\n", f"var x = '${{{n}}}'\nvar y = map({n}, {n} => {n}())\n"]
    return docs


_c19 = {}


def c19_setup(ctx):
    d = os.path.join(ctx.scratch, "c19")
    os.mkdir(d)
    os.mkdir(os.path.join(ctx.scratch, "worlds"))
    _c19["canary"] = os.path.join(d, "canary.json")
    with open(_c19["canary"], "w") as f:
        f.write('{"canary": "sang"}')
    _c19["docs"] = hostile(ctx, _c19["canary"])
    # whatever is imported or opened once and for all at a first call is not the subject: harmless texts first
    import random
    r = random.Random("warm")
    warm = [joined(G(r, None, 3).doc().tokens(), r) for _ in range(60)] + [rich(r, "w") for _ in range(40)] + JUNK + LATE + ["var a = '''", "", "\n", "targetScope = 'x'", "module m 'x' = {}", "module m 'br:x' = {}", "module m 'ts:x' = {}", "resource r 'x' = {}"]
    warm += [joined(Doc([Var("x", ("call", f, None, [("id", "a")] * n))]).tokens(), r) for f in T.ALL_FUNCS for n in range(0, T.arity_range(f)[1] + 2)]
    warm += [f"@{d}({a})\nparam a string\n" for d in T.DECOS for a in ("", "1", "'x'", "[1]", "{}")]
    f = pathlib.Path(d) / "warm.bicep"
    monitor_on()
    found = _c19["first"] = []

    def call(what, p, text=None, **k):
        with watching() as ev:
            ctx.call(getattr(p, what), **({"text": text} if text is not None else {}), **k)
        found.extend((f"{what} caused {e} when called for the first time", text) for e in ev if lasting(e, f) and len(found) < 10)

    for p in (ctx.parser(False), ctx.parser(True)):
        p.parse(text="var x = 1")
    f.write_bytes(b"")
    gc.collect()
    before = process_state(ctx)
    with Tap(ctx) as tap:
        for t in warm:
            for lines in (False, True):
                call("parse", ctx.parser(lines), t)
                call("create_tree", ctx.parser(lines), t)
            f.write_bytes(t.encode("utf-8", "replace"))
            call("parse", ctx.parser(False), file_path=f)
            call("create_tree", ctx.parser(False), file_path=f)
        for data in (b"\xff", b"\xef\xbb", b"\xef\xbb\xbfvar a = 1"):
            f.write_bytes(data)
            call("parse", ctx.parser(False), file_path=f)
        call("parse", ctx.parser(False), file_path=f.parent / "missing")
        call("parse", ctx.parser(False), file_path=f.parent)
        call("parse", ctx.parser(False))
        call("parse", ctx.parser(False), "", file_path=f)
        n, out = tap.size(), tap.text()
    if n:
        found.append((f"something was printed: {out!r}", None))
    gc.collect()
    after = process_state(ctx)
    found.extend((f"process-wide state changed: {k}: {short_diff(before[k], after[k])}", None) for k in before if k != "modules" and before[k] != after[k])
    f.unlink()


def lasting(e, path):
    """more than the reading of a module or of the input"""
    name, args = e
    if name == "open":
        p, mode, flags = (list(args) + [None] * 3)[:3]
        return bool(mode is not None and set(str(mode)) & set("wax+") or int(flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    return name.split(".")[0] in ("subprocess", "socket", "shutil", "tempfile", "ctypes", "signal", "pty", "resource", "ftplib", "http", "urllib", "smtplib", "webbrowser", "sqlite3", "syslog") or name in (
        "os.system", "os.fork", "os.exec", "os.posix_spawn", "os.spawn", "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime", "os.truncate", "os.putenv", "os.unsetenv", "os.chdir", "os.kill", "os.popen", "os.write", "os.mkfifo", "os.umask", "os.nice", "time.sleep", "builtins.input", "sys.settrace", "sys.setprofile")


def c19_first(ctx, i):
    """what the very first calls of the process did, while whatever is loaded once was loaded"""
    ctx.ran("first calls")
    ctx.counts["effects of first calls"] += len(_c19["first"])
    for what, t in _c19["first"][:5]:
        ctx.fail(what, text=t or "")


def allowed_open(e, path):
    """reading the one file given"""
    name, args = e
    if name != "open":
        return False
    p, mode, flags = (list(args) + [None] * 3)[:3]
    return str(p) == str(path) and (mode is None or not set(str(mode)) & set("wax+")) and not (int(flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))


def c19_docs(ctx, docs, by_file=0.2):
    """runs calls on the documents under watch"""
    r = ctx.rng
    monitor_on()
    ps = [ctx.parser(False), ctx.parser(True)]
    calls = []
    f = pathlib.Path(ctx.scratch) / "c19" / f"in{os.getpid()}.bicep"
    before = process_state_with(ctx, f)
    with Tap(ctx) as tap:
        for t in docs:
            p = r.choice(ps)
            what = "parse" if r.random() < 0.8 else "create_tree"
            path = None
            if r.random() < by_file:
                path = f
                f.write_bytes(t.encode("utf-8", "replace"))
                k = {"file_path": f}
            else:
                k = {"text": t}
            with watching() as ev:
                o = ctx.call(getattr(p, what), **k)
            opens = [e for e in ev if path and allowed_open(e, path)]
            bad = [e for e in ev if e not in opens and not (path and e[0] in ("os.stat", "os.lstat", "os.access") and repr(str(path)) in repr(e[1]))]
            ctx.counts["calls watched"] += 1
            ctx.counts["permitted reads of the input"] += len(opens)
            for e in ev:
                ctx.seen("audit events", e[0])
            ctx.ran(t)
            if bad:
                ctx.fail(f"{what} caused {bad[:3]}", text=t)
            if len(opens) > 1:
                ctx.fail(f"{what} read its input {len(opens)} times", text=t)
            if path and not opens and o.ok:
                ctx.fail(f"{what} gave a result without reading the file", text=t)
            calls.append((what, t))
        n = tap.size()
        out = tap.text()
    if n:
        ctx.fail(f"something was printed: {out!r}", text=find_printer(ctx, docs) or docs[0], whole=docs)
    after = process_state_with(ctx, f)
    for k in before:
        if before[k] != after[k]:
            ctx.fail(f"process-wide state changed: {k}: {short_diff(before[k], after[k])}", text=docs[0], whole=docs)
            ctx.counts["states changed"] += 1
    with open(_c19["canary"]) as fh:
        if fh.read() != '{"canary": "sang"}':
            ctx.fail("the canary file changed", whole=docs)


def process_state_with(ctx, f):
    f.write_bytes(b"")
    gc.collect()
    return process_state(ctx)


def find_printer(ctx, docs):
    for t in docs:
        with Tap(ctx) as tap:
            ctx.parse(t)
            ctx.tree(t)
            if tap.size():
                return t
    return None


def short_diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}
    if isinstance(a, (frozenset, list, tuple)) and isinstance(b, type(a)) and not any(isinstance(x, (dict, list)) for x in (*a, *b)):
        return {"gone": sorted(map(str, set(a) - set(b)))[:10], "new": sorted(map(str, set(b) - set(a)))[:10]}
    return (repr(a)[:200], repr(b)[:200])


def c19_hostile(ctx, i):
    docs = _c19["docs"]
    c19_docs(ctx, docs[i::40])


def c19_random(ctx, i):
    r = ctx.rng
    c19_docs(ctx, pool(r, 30))


def swap(get, put, value):
    """a setting with its way back"""
    def do(stack):
        old = get()
        stack.callback(put, old)
        put(value)
    return do


def on_signal(*_):
    pass


def setup_usr(stack):
    stack.callback(signal.signal, signal.SIGUSR1, signal.signal(signal.SIGUSR1, on_signal))
    stack.callback(signal.signal, signal.SIGALRM, signal.signal(signal.SIGALRM, on_signal))
    stack.callback(signal.signal, signal.SIGINT, signal.signal(signal.SIGINT, signal.SIG_IGN))
    stack.callback(signal.signal, signal.SIGTERM, signal.signal(signal.SIGTERM, on_signal))


def setup_warnings(stack):
    stack.enter_context(warnings.catch_warnings())
    warnings.simplefilter("always")
    warnings.filterwarnings("ignore", message="nothing")


def setup_logging(stack):
    h = logging.NullHandler()
    logging.root.addHandler(h)
    stack.callback(logging.root.removeHandler, h)
    stack.callback(logging.root.setLevel, logging.root.level)
    logging.root.setLevel(7)
    x = logging.getLogger("lark")
    stack.callback(x.setLevel, x.level)
    stack.callback(setattr, x, "propagate", x.propagate)
    x.setLevel(3)
    x.propagate = False


def setup_hooks(stack):
    for m, k in ((sys, "excepthook"), (sys, "displayhook"), (threading, "excepthook"), (sys, "unraisablehook"), (sys, "breakpointhook")):
        stack.callback(setattr, m, k, getattr(m, k))
        setattr(m, k, lambda *a: None)


def setup_environment(stack):
    old = dict(os.environ)
    stack.callback(lambda: (os.environ.clear(), os.environ.update(old)))
    os.environ.update({"LANG": "C", "LC_ALL": "C", "TZ": "Asia/Tokyo", "PYTHONHASHSEED": "7", "PYCEP": "1", "HOME": "/nonexistent", "DEBUG": "1", "NO_COLOR": "1"})
    os.environ.pop("USER", None)


def setup_dir(stack):
    old = os.getcwd()
    stack.callback(os.chdir, old)
    os.chdir("/")


def setup_sys(stack):
    for k, v in (("path", [*sys.path, "/nonexistent/x"]), ("argv", ["x", "--debug"]), ("dont_write_bytecode", not sys.dont_write_bytecode), ("meta_path", [*sys.meta_path])):
        stack.callback(setattr, sys, k, getattr(sys, k))
        setattr(sys, k, v)


def setup_std(stack):
    for k in ("stdout", "stderr", "stdin"):
        stack.callback(setattr, sys, k, getattr(sys, k))
    sys.stdin = io.StringIO("input\n")
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()


def setup_gc(stack):
    stack.callback(gc.enable)
    stack.callback(gc.set_threshold, *gc.get_threshold())
    gc.disable()
    gc.set_threshold(12345, 17, 19)


def setup_mask(stack):
    stack.callback(signal.pthread_sigmask, signal.SIG_SETMASK, signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2, signal.SIGWINCH]))


def setup_random(stack):
    import random
    stack.callback(random.setstate, random.getstate())
    random.seed(20)


def setup_limits(stack):
    for n in (resource.RLIMIT_CORE, resource.RLIMIT_NOFILE):
        soft, hard = resource.getrlimit(n)
        stack.callback(resource.setrlimit, n, (soft, hard))
        resource.setrlimit(n, (0 if n == resource.RLIMIT_CORE else max(200, (soft if soft > 0 else 1024) // 2), hard))


def setup_fault(stack):
    if not faulthandler.is_enabled():
        stack.callback(faulthandler.disable)
        faulthandler.enable(open(os.devnull, "w"))


SETTINGS = {
    "garbage collector off": setup_gc, "recursion limit": swap(sys.getrecursionlimit, sys.setrecursionlimit, 4321), "digits of integers": swap(sys.get_int_max_str_digits, sys.set_int_max_str_digits, 9999), "switch interval": swap(sys.getswitchinterval, sys.setswitchinterval, 0.0123), "signal handlers": setup_usr,
    "warnings": setup_warnings, "logging": setup_logging, "hooks": setup_hooks, "environment": setup_environment, "working directory": setup_dir, "sys": setup_sys, "umask": lambda stack: stack.callback(os.umask, os.umask(0o137)),
    "decimal": swap(decimal.getcontext, decimal.setcontext, decimal.Context(prec=7)), "stack size": swap(stack_size, threading.stack_size, 1 << 20), "socket": swap(socket.getdefaulttimeout, socket.setdefaulttimeout, 7.5), "csv": swap(csv.field_size_limit, csv.field_size_limit, 777), "standard streams": setup_std,
    "signal mask": setup_mask, "random": setup_random, "limits": setup_limits, "fault handler": setup_fault, "locale": swap(lambda: locale.setlocale(locale.LC_ALL), lambda v: locale.setlocale(locale.LC_ALL, v), "C.UTF-8"), "logging off": lambda stack: (stack.callback(logging.disable, logging.root.manager.disable), logging.disable(35)),
    "traceback limit": lambda stack: (stack.callback(lambda: sys.__dict__.pop("tracebacklimit", None)), setattr(sys, "tracebacklimit", 2)), "garbage collector threshold": swap(gc.get_threshold, lambda v: gc.set_threshold(*v), (50, 3, 2)),
}


def c19_settings(ctx, i):
    """a process with unusual settings keeps them, and they change no result"""
    r = ctx.rng
    names = list(SETTINGS)
    mine = [names[i % len(names)]] if i < len(names) else r.sample(names, r.randint(2, len(names)))
    docs = pool(r, 10)
    wants = [(okey(ctx.parse(t, bool(k % 2))), okey(ctx.tree(t))) for k, t in enumerate(docs)]
    with contextlib.ExitStack() as stack:
        for n in mine:
            SETTINGS[n](stack)
            ctx.seen("unusual settings", n)
        c19_docs(ctx, docs)
        got = [(okey(ctx.parse(t, bool(k % 2))), okey(ctx.tree(t))) for k, t in enumerate(docs)]
    for t, a, b in zip(docs, wants, got):
        ctx.counts["outcomes compared under unusual settings"] += 1
        if a != b:
            ctx.fail(f"another outcome in a process with other settings ({', '.join(mine)})", text=t, usual=repr(a)[:800], unusual=repr(b)[:800])


WORLDNAMES = ["HOME", "PATH", "USER", "TMPDIR", "LANG", "PWD", "VT_LEAK", "vt_leak", "location", "name", "x", "AZURE_LOCATION", "ENV", "a", "BICEP_REGISTRY", "PYTHONPATH", "bicep", "pycep"]
REFERRED = ["$%s", "${%s}", "%%%s%%", "$env:%s", "$(%s)", "{%s}", "\\${%s}", "$%s/a", "~", "~/%s", "~%s", "<%s>", "[env(%s)]", "pre$%spost", "@%s", "env:%s", "file:./%s", "./%s", "%s", "%%(%s)s", "#{%s}", "{{%s}}", "$[%s]", "${env.%s}", "./%s.bicep", "%s.json"]


def c19_world(ctx, i):
    """the same text in two worlds: other environment variables, working directory and files that its texts name"""
    r = ctx.rng
    names = r.sample(WORLDNAMES, 4)
    strings = [r.choice(REFERRED) for _ in range(8)]
    strings = [f % r.choice(names) if "%" in f.replace("%%", "") else f.replace("%%", "%") for f in strings]
    g = G(r, {"str": 12, "ml": 2}, 2)
    g.raw = lambda interp=True: r.choice(strings)
    g.mlraw = lambda: r.choice(strings)
    t = joined(g.doc().tokens(), r)
    t += "".join(f"var w{j} = {f}('{s}')\n" for j, (f, s) in enumerate(zip(["readEnvironmentVariable", "loadTextContent", "loadJsonContent", "any", "f", "loadFileAsBase64", "toLower", "json"], strings)))
    t += "".join(f"module m{j} '{s}' = {{\n  name: '{s}'\n}}\nimport {{a{j}}} from '{s}'\nvar v{j} = '{s}'\nvar u{j} = '''{s}'''\n@description('{s}')\nparam p{j} string = '{s}'\n" for j, s in enumerate(strings) if s[:3] not in ("br:", "br/", "ts:", "ts/") and "@" not in s)
    d = os.path.join(ctx.scratch, "worlds", f"w{os.getpid()}")
    os.makedirs(d)
    for s in [*strings, *names, *(n + e for n in names for e in (".bicep", ".json"))]:
        f = os.path.join(d, s.removeprefix("file:").removeprefix("./"))
        if f != d and f.startswith(d + "/") and "/" not in f[len(d) + 1:] and not os.path.isdir(f):
            with contextlib.suppress(OSError), open(f, "w") as fh:
                fh.write('{"a": "leakedcontent"}')
    old, cwd = dict(os.environ), os.getcwd()
    ps = [ctx.parser(False), ctx.parser(True)]
    here = [okey(ctx.parse(t, parser=p)) for p in ps] + [okey(ctx.tree(t, ps[0]))]
    try:
        os.chdir(d)
        for n in names:
            os.environ[n] = "leakedvalue" if n not in ("PYTHONPATH",) else d
        os.environ["HOME"] = d
        there = [okey(ctx.parse(t, parser=p)) for p in ps] + [okey(ctx.tree(t, ps[0]))]
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(old)
        shutil.rmtree(d)
    ctx.ran(t)
    for n in names:
        ctx.seen("variables changed", n)
    for s in strings:
        ctx.seen("references to the outside", s)
    ctx.counts["documents accepted in both worlds"] += here[0][0] == "ok" == there[0][0]
    for a, b in zip(here, there):
        if a != b:
            ctx.fail("the result depends on the environment or on files the text names", text=t, here=repr(a)[:1500], there=repr(b)[:1500])
            return
        if "leakedvalue" in repr(b) or "leakedcontent" in repr(b):
            ctx.fail("something of the environment is in the result", text=t, actual=repr(b)[:3000])
            return
    for j, s in enumerate(strings):
        v = here[0][0] == "ok" and ctx.parse(t).value.get("variables", {}).get(f"v{j}")
        if v and v["value"] != s:
            ctx.fail(f"a text is followed instead of reported: {v['value']!r}", text=t)


def spike(r, t, docs):
    """splices hostile text into a random document"""
    s = r.choice(docs)
    k = r.randrange(4)
    if k == 0:
        return t + s
    if k == 1:
        return s + t
    lines = t.split("\n")
    n = r.randint(0, len(lines))
    return "\n".join(lines[:n] + s.split("\n") + lines[n:])


def c19_sizes(ctx, i):
    """very long, wide and deep documents"""
    from .work import FLAT, flat
    r = ctx.rng
    docs = []
    for k in range(4):
        docs.append(flat(FLAT[(4 * i + k) % len(FLAT)], r.choice([70, 300, 1100]))[0] + "\n")
    n = r.choice([300, 600, 1500, 5000, 70000])
    docs.append(f"var a = '{'x' * n}'\n")
    docs.append(f"var a = [{', '.join(['1'] * (n // 10))}]\n")
    docs.append(" " * n + "var a = 1 // " + "c" * n + "\n" + "\n" * (n // 2))
    d = r.choice([20, 90, 150, 400])
    docs.append(r.choice(["var a = " + "[" * d + "]" * d, "var a = " + "f(" * d + ")" * d, "var a = " + "{ b: " * d + "1" + "}" * d, "var a = " + "!" * d + "b", "var a = " + "(" * d + "1" + ")" * d, "var a = " + "1 + " * d + "1", "var a = b" + ".c" * d, "param a " + "(b | " * d + "c" + ")" * d + "[]"]) + "\n")
    # the same, failing: in the tokens, in the grammar, at the end, in the quotes, after the syntax
    docs += [x + r.choice(["var = 1\n", ";\n", "var x = [\n", "var q = '''\n", "var q = '\n", "resource m 'a' = {}\n", "targetScope = 'x'\n", "module m 'br:x' = {}\n", "}\n"]) for x in docs]
    docs.append(docs[6][:-3])
    ctx.seen("line lengths in hundreds", max(map(len, "".join(docs).split("\n"))) // 100)
    c19_docs(ctx, docs)


def c19_mixed(ctx, i):
    r = ctx.rng
    c19_docs(ctx, [spike(r, x, _c19["docs"]) for x in pool(r, 30)])


def c19_threads_left(ctx, i):
    """after many calls no thread, child, descriptor or temporary file is left, memory of results is given back"""
    r = ctx.rng
    docs = pool(r, 12)
    for _ in range(3):
        for t in docs:
            ctx.parse(t)
    gc.collect()
    n0 = len(gc.get_objects())
    for _ in range(8):
        for t in docs:
            ctx.parse(t, bool(_ % 2))
            ctx.tree(t)
    gc.collect()
    n1 = len(gc.get_objects())
    ctx.ran(("left", i), sample=f"{n0} objects before, {n1} after")
    ctx.counts["objects alive before"] += n0
    ctx.counts["objects alive after"] += n1
    return None


def c19_construct(ctx, i):
    """constructing touches the grammar cache only"""
    monitor_on()
    d = os.path.join(ctx.scratch, f"c19c{os.getpid()}-{i}")
    os.mkdir(d)
    old = tempfile.tempdir
    tempfile.tempdir = d
    try:
        for n in range(4):
            cache = i % 2 == 0
            before = process_state(ctx)
            with Tap(ctx) as tap, watching() as ev:
                o = ctx.call(ctx.new_parser, bool(n % 2), cache=cache)
                printed = tap.size()
            after = process_state(ctx)
            ctx.ran(("construct", cache, n, i))
            if not o.ok:
                ctx.fail(f"construction failed: {o!r}")
                continue
            if printed:
                ctx.fail("construction printed something")
            for e in ev:
                ctx.seen("audit events of constructions", e[0])
                if e[0] == "open":
                    p, mode, flags = (list(e[1]) + [None] * 3)[:3]
                    writes = set(str(mode or "")) & set("wax+") or int(flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                    if writes and not str(p).startswith(d + "/"):
                        ctx.fail(f"construction writes {p}")
                    if writes and not cache:
                        ctx.fail(f"construction without cache writes {p}")
                if e[0].startswith(("socket", "subprocess", "os.system", "os.exec", "os.posix_spawn", "os.fork", "ctypes", "webbrowser", "urllib")):
                    ctx.fail(f"construction causes {e}")
            left = set(os.listdir(d))
            if not cache and left:
                ctx.fail(f"construction without cache leaves {left}")
            if len(left) > 1 or any(not x.startswith(".lark_cache") for x in left):
                ctx.fail(f"construction leaves {left}")
            for k in before:
                if k not in ("temporary files", "modules") and before[k] != after[k]:
                    ctx.fail(f"construction changes process-wide state: {k}: {short_diff(before[k], after[k])}")
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


STRACE_CODE = """
import sys, os, json, pathlib
docs, path = json.load(open(sys.argv[1])), sys.argv[2]
import pycep
ps = [pycep.BicepParser(add_line_numbers=v) for v in (False, True)]
def run(k, **a):
    try: getattr(ps[k % 2], "create_tree" if k % 5 == 4 else "parse")(**a)
    except Exception: pass
f = pathlib.Path(path)
for k in range(20):
    run(k, text="var a = 'x'")
    run(k, text="{")
    run(k, file_path=f)
for k, t in enumerate(docs):
    os.access(f"/vt-begin-{k}", 0)
    run(k, text=t)
    os.access(f"/vt-end-{k}", 0)
for k in range(10):
    os.access(f"/vt-begin-f{k}", 0)
    run(k, file_path=f)
    os.access(f"/vt-end-f{k}", 0)
"""


def c19_strace(ctx, i):
    """system calls of a process while it parses, as the kernel sees them"""
    r = ctx.rng
    docs = r.sample(_c19["docs"], 150) + [spike(r, x, _c19["docs"]) for x in pool(r, 60)]
    docs = [d.encode("utf-8", "replace").decode() for d in docs]
    base = os.path.join(ctx.scratch, f"st{os.getpid()}-{i}")
    with open(base + ".json", "w") as f:
        json.dump(docs, f)
    with open(base + ".bicep", "w") as f:
        f.write("var a = loadTextContent('x')\n")
    cmd = ["strace", "-f", "-qq", "-e", "trace=%file,%network,%process,write,prctl,setrlimit,prlimit64,umask,rt_sigaction,setitimer,sendto,kill,tgkill", "-s", "300", "-o", base + ".log", sys.executable, "-B", "-c", STRACE_CODE, base + ".json", base + ".bicep"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=child_env(ctx), timeout=300)
    except (FileNotFoundError, subprocess.TimeoutExpired) as e:
        ctx.counts[f"strace impossible: {type(e).__name__}"] += 1
        return ctx.ran(("strace", i), False)
    log = open(base + ".log", errors="replace").read() if os.path.exists(base + ".log") else ""
    if "vt-begin-0" not in log:
        if p.returncode and "ptrace" not in p.stderr and "PTRACE" not in p.stderr and "strace" not in p.stderr:
            return ctx.fail(f"a fresh process cannot parse: {p.stderr[-800:]}")
        ctx.counts["strace impossible: " + p.stderr[-80:].strip()] += 1
        return ctx.ran(("strace", i), False)
    cur, n = None, 0
    for line in log.split("\n"):
        m = re.search(r'"/vt-(begin|end)-(f?\d+)"', line)
        if m:
            if m[1] == "begin":
                cur = m[2]
                n += 1
                reads = 0
            else:
                ctx.ran(("strace", docs[int(cur)] if cur.isdigit() else cur))
                if not cur.isdigit() and reads != 1:
                    ctx.fail(f"the input file was opened {reads} times")
                cur = None
            continue
        if cur is None or not line.strip():
            continue
        ctx.seen("system calls during calls", re.sub(r"^\d+ +", "", line).split("(")[0])
        if not cur.isdigit() and base + ".bicep" in line:
            if "open" in line:
                if "O_RDONLY" in line and "O_CREAT" not in line:
                    reads += 1
                    continue
            elif "stat" in line:
                continue
        if "exit" in line or "+++" in line:
            continue
        ctx.fail(f"system call during parsing: {line[:300]}", text=docs[int(cur)] if cur.isdigit() else "")
        break
    ctx.counts["calls traced"] += n
    if p.returncode:
        ctx.fail(f"the traced process failed: {p.stderr[-500:]}")
    for s in (".json", ".bicep", ".log"):
        with contextlib.suppress(OSError):
            os.unlink(base + s)


FRESH_CODE = """
import sys, json, os
sys.path.insert(0, sys.argv[1])
from vt.checks import results
import pycep, tempfile
tempfile.gettempdir()
class C: scratch = os.getcwd()
docs, path, cache = json.load(open(sys.argv[2])), sys.argv[3], sys.argv[4] == "1"
import pathlib
def state():
    s = results.process_state(C)
    for k in ("modules", "temporary files", "garbage collector", "json", "re"):
        s.pop(k)
    return s
def compare(a, b, what):
    for k in a:
        if a[k] != b[k]:
            print("CHANGED", what, k, results.short_diff(a[k], b[k]))
s0 = state()
p = pycep.BicepParser(cache=cache)
q = pycep.BicepParser(add_line_numbers=True, cache=cache)
s1 = state()
compare(s0, s1, "constructing a parser")
for t in docs:
    for f in (p.parse, q.parse, p.create_tree):
        try: f(text=t)
        except Exception: pass
for f in (p.parse, q.create_tree):
    f(file_path=pathlib.Path(path))
compare(s1, state(), "parsing")
print("DONE")
"""


def c19_fresh(ctx, i):
    """process-wide state around the very first calls of a process"""
    r = ctx.rng
    base = os.path.join(ctx.scratch, f"fr{os.getpid()}-{i}")
    docs = [d.encode("utf-8", "replace").decode() for d in [joined(G(r, None, 2).doc().tokens(), r) for _ in range(12)] + pool(r, 12) + r.sample(_c19["docs"], 12)]
    with open(base + ".json", "w") as f:
        json.dump(docs, f)
    with open(base + ".bicep", "w") as f:
        f.write(joined(G(r, None, 2).doc().tokens(), r))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-B", "-c", FRESH_CODE, root, base + ".json", base + ".bicep", str(i % 2)], capture_output=True, text=True, env=child_env(ctx), timeout=300, cwd=ctx.scratch + "/c19", stdin=subprocess.DEVNULL)
    ctx.ran(("fresh", i), sample=docs[0])
    lines = p.stdout.split("\n")
    if "DONE" not in lines:
        ctx.fail(f"a fresh process cannot parse: {p.stderr[-800:]}")
    for x in lines:
        if x.startswith("CHANGED"):
            ctx.fail(f"process-wide state {x[:600]}", whole=docs)
        elif x and x != "DONE":
            ctx.fail(f"printed {x[:300]}", whole=docs)
    if p.stderr and "DONE" in lines:
        ctx.fail(f"printed on standard error: {p.stderr[:300]}", whole=docs)


# --- C20 ---------------------------------------------------------------------
PLAIN_TYPES = {dict, list, str, int, bool, type(None)}
SECTIONS = {"globals", "imports", "extensions", "metadata", "parameters", "variables", "outputs", "resources", "modules", "types", "functions"}


def plain(x, path=(), seen=None, lines=False):
    """-> first complaint about the object graph, or None"""
    if seen is None:
        seen = {}
    t = type(x)
    if t in (dict, list):
        if id(x) in seen:
            return f"{'/'.join(map(str, path))} and {'/'.join(map(str, seen[id(x)][0]))} are one object"
        seen[id(x)] = (path, x)
    if t is dict:
        for k, v in x.items():
            if type(k) is not str:
                return f"key {k!r} of type {type(k).__name__} at {'/'.join(map(str, path))}"
            c = plain(v, path + (k,), seen, lines)
            if c:
                return c
    elif t is list:
        for n, v in enumerate(x):
            c = plain(v, path + (n,), seen, lines)
            if c:
                return c
    elif t not in PLAIN_TYPES:
        if isinstance(x, str) and t.__name__ == "BicepElement" and t.__module__.startswith("pycep"):
            extra = {k for k in getattr(x, "__dict__", {})}
            if extra:
                return f"the reference at {'/'.join(map(str, path))} carries {extra}"
            return None
        return f"{t.__module__}.{t.__name__} at {'/'.join(map(str, path))}"
    return None


def same(a, b):
    """equal in value and types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def untyped(a, b):
    """equal, references as strings"""
    if isinstance(a, dict):
        return type(b) is dict and list(a) == list(b) and all(untyped(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return type(b) is list and len(a) == len(b) and all(map(untyped, a, b))
    return a == b and (type(a) is type(b) or isinstance(a, str) and isinstance(b, str))


def inspect_result(ctx, v, text):
    c = plain(v)
    if c:
        return ctx.fail(f"not plain, separate data: {c}", text=text)
    if type(v) is not dict or not set(v) <= SECTIONS or "globals" not in v or set(v["globals"]) != {"scope"}:
        return ctx.fail(f"unexpected sections {list(v)}", text=text)
    try:
        s = json.dumps(v)
        back = json.loads(s)
    except Exception as e:
        return ctx.fail(f"not serialisable as JSON: {type(e).__name__}: {e}", text=text)
    if not untyped(v, back):
        return ctx.fail("JSON gives something else back", text=text)
    if json.dumps(back) != s:
        return ctx.fail("JSON is not stable", text=text)
    for proto in (2, pickle.HIGHEST_PROTOCOL):
        p = pickle.dumps(v, proto)
        if not same(v, pickle.loads(p)):
            return ctx.fail("pickle gives something else back", text=text)
        if len(p) > 20000 + 60 * len(s):
            return ctx.fail(f"the pickle is {len(p)} bytes long for {len(s)} bytes of JSON", text=text)
    if b"lark" in p and "lark" not in text:
        return ctx.fail("the pickle mentions lark", text=text)
    d = copy.deepcopy(v)
    if not same(v, d) or d is v:
        return ctx.fail("a deep copy is not equal", text=text)
    ctx.counts["results taken apart"] += 1
    return None


def shape_diffs(expected, ds):
    """differences in the fields and types of nodes, not in what the user wrote"""
    out = []
    for path, kind, e, a in ds:
        if kind == "extra" or kind == "missing":
            # the mapping that has the field
            x = expected
            for k in path[:-1]:
                x = x[k]
            if type(x).__name__ == "Ordered":
                if kind == "extra" and str(path[-1]).startswith("__"):
                    out.append((path, kind, e, a))
                continue
            if len(path) == 2 and path[0] != "globals":
                continue
            if len(path) == 1:
                continue
            out.append((path, kind, e, a))
        elif kind == "type" and not (isinstance(e, str) and isinstance(a, str)):
            out.append((path, kind, e, a))
    return out


def c20_judge(ctx, doc, style=PLAIN, lines=True):
    r = ctx.rng
    text, toklines = render(doc.tokens(), r, style)
    o = ctx.parse(text, lines)
    ctx.ran(text)
    if not o.ok:
        ctx.counts["documents rejected (judged by other properties)"] += 1
        return None
    inspect_result(ctx, o.value, text)
    expected = doc.expected(toklines if lines else None)
    ds = shape_diffs(expected, diff(expected, o.value, limit=60))
    if ds:
        ctx.fail("; ".join(show(d) for d in ds[:3]), text=text, actual=repr(o.value)[:3000])
    return o


def c20_random(ctx, i):
    r = ctx.rng
    g = G(r, None, r.choice([1, 2, 3, 4]))
    c20_judge(ctx, g.doc(), style_of(r), bool(i % 2))


def c20_sizes(ctx, i):
    r = ctx.rng
    what, n = SIZED[i % len(SIZED)]
    ctx.seen("what/how many", f"{what} {n}")
    c20_judge(ctx, large(r, what, n)[1], PLAIN, bool(i % 2))


SIZED = [(w, n) for w in LARGE for n in COUNTS]
MARKERS = ["__child_resource__", "__child_resources__", "__name__", "__attrs__", "__start_line__", "__end_line__", "__class__", "decorators", "config", "type", "value", "default", "operator", "operands", "function", "parameters", "loop_type", "condition", "detail", "expression", "item_type", "members", "globals", "scope", "imports", "variables", "full", "public",
           "arg_1", "operand_1", "var_1", "'a'", "'__name__'", "resource"]


def c20_markers(ctx, i):
    """user names equal to names the parser uses itself stay user data"""
    r = ctx.rng
    ks = r.sample(MARKERS, 6)
    obj = lambda: O(*[(k, r.choice([N(1), S("s"), I("x"), O((r.choice(MARKERS), N(2))), ("arr", [I("y")], [])])) for k in r.sample(ks, r.randint(1, 4))])  # noqa: E731
    names = [k for k in MARKERS if k[0] != "'" and k not in ("resource", "if", "for")]
    n = iter(r.sample(names, 8))
    child = Resource(r.choice(names), "s", None, obj(), nested=True)
    parent = obj()
    parent = ("obj", parent[1] + [("child", child)], parent[2] + ["nl"]) if i % 2 else parent
    ds = [Var(next(n), obj()), Param(next(n), ("name", next(n)), obj()), Output(next(n), ("name", "object"), obj()), Resource(next(n), "A/b", "1", parent), Extension(next(n), obj(), None), TypeDecl(next(n), [obj()]), Func(r.choice(names), [(r.choice(names), ("name", "string"))], ("name", "object"), obj())]
    # here every difference counts: nothing of this may be mistaken for the parser's own
    doc = Doc(r.sample(ds, r.randint(1, len(ds))))
    lines = bool(r.getrandbits(1))
    text, toklines = render(doc.tokens(), r, PLAIN)
    o = ctx.parse(text, lines)
    ctx.ran(text)
    if not o.ok:
        return ctx.fail(f"document with names the parser uses itself rejected: {o!r}", text=text)
    inspect_result(ctx, o.value, text)
    bad = diff(doc.expected(toklines if lines else None), o.value)
    if bad:
        ctx.fail("; ".join(map(show, bad[:3])), text=text)
    return None


def c20_funcs(ctx, i):
    """every function and decorator, every argument count, every kind of argument"""
    r = ctx.rng
    names = T.ALL_FUNCS + ["unknown_f"] + [f"@{d}" for d in T.DECOS]
    f = names[i % len(names)]
    g = G(r, None, 2)
    if f.startswith("@"):
        d = f[1:]
        decos = [Deco(d, bool(k % 2), g.deco_arg(d) if hasattr(g, "deco_arg") else deco_arg(r, g, d)) for k in range(r.choice([1, 2, 3]))]
        doc = Doc([Param("p", ("name", "int"), g.value(), False, decos), Var("q", g.value(), None, False, decos[:1])])
    else:
        lo, hi = T.arity_range(f) if f in T.ALL_FUNCS else (0, 6)
        ds = []
        for n in range(lo, hi + 1):
            args = [tail(g.value()) for _ in range(n)]
            ds.append(Var(f"v{n}", ("call", f, r.choice([None, T.namespace(f)]) if f in T.ALL_FUNCS else None, args)))
        doc = Doc(ds)
    c20_judge(ctx, doc, PLAIN, bool(i % 2))


def deco_arg(r, g, d):
    if not T.DECOS[d][1]:
        return None
    if d == "allowed":
        return ("arr", [N(1), S("x"), O(("k", g.value()))], ["nl", "nl"])
    if d == "metadata":
        return O(("k", g.value()), ("'l'", ("arr", [], [])))
    if d == "description":
        return S(g.raw())
    return N(r.randrange(1000))


def c20_positions(ctx, i):
    """every kind of value in every position; the same value twice in one document is no shared object"""
    r = ctx.rng
    g = G(r, None, 2)
    pos = POS[i % len(POS)]
    v = r.choice([lambda: ("arr", [], []), lambda: ("obj", [], []), g.value, g.value])()
    ctx.seen("positions", pos)
    c20_judge(ctx, Doc([place(pos, "x", v), place(r.choice(POS), "y", v), place(pos, "z", v)]), style_of(r, 0.2), bool(r.getrandbits(1)))


def c20_empty(ctx, i):
    """empty containers everywhere: nothing shared between results and parses"""
    r = ctx.rng
    texts = ["", "var a = []\nvar b = []\n", "var a = {}\nvar b = {}\n", "param a string\nparam b string\n", "resource a 'x@1' = {}\nresource b 'x@1' = {}\n", "func f() string => []\nfunc g() string => []\n", "var a = f()\nvar b = f()\n", "output a string = [[], []]\noutput b string = [{}, {}]\n", "@metadata({})\n@allowed([])\nparam a string\n@metadata({})\n@allowed([])\nparam b string\n",
             "resource a 'x@1' = {\n  resource b 's' = {}\n}\nresource c 'x@1' = {\n  resource b 's' = {}\n}\n", "type a = []\ntype b = {}\n", "import 'a'\nimport {b} from 'x'\nextension e\nextension f with {}\n", "var a = [for i in []: {}]\nvar b = [for i in []: {}]\n", "module a './x' = {}\nmodule b './x' = {}\n", "param a string[]\nparam b (string | int)[]\nparam c (string | int)[]\n"]
    t = texts[i % len(texts)]
    seen = {}
    keep = []
    for n in range(6):
        o = ctx.parse(t, bool(n // 3), ctx.parser(bool(n // 3)) if n % 3 else ctx.new_parser(bool(n // 3)))
        ctx.ran((t, n), sample=t)
        if not o.ok:
            ctx.counts["documents rejected (judged by other properties)"] += 1
            return None
        inspect_result(ctx, o.value, t)
        keep.append(o.value)
        c = plain(o.value, (f"result {n}",), seen)
        if c:
            return ctx.fail(f"two results share an object: {c}", text=t)
    return None


def c20_process(ctx, i):
    """a pickle of a result is read by another process"""
    r = ctx.rng
    f = os.path.join(ctx.scratch, f"p{os.getpid()}-{i}")
    rs = []
    for t in pool(r, 20):
        o = ctx.parse(t, bool(r.getrandbits(1)))
        if o.ok:
            rs.append(o.value)
            ctx.ran(t)
    with open(f, "wb") as fh:
        pickle.dump(rs, fh)
    code = "import sys, pickle, json\nx = pickle.load(open(sys.argv[1], 'rb'))\nassert not any(m == 'lark' or m.startswith('lark.') for m in ()) \nprint(json.dumps(x))\n"
    p = subprocess.run([sys.executable, "-B", "-c", code, f], capture_output=True, text=True, env=child_env(ctx), timeout=120)
    os.unlink(f)
    if p.returncode:
        return ctx.fail(f"another process cannot read the pickle: {p.stderr[-600:]}")
    if p.stdout.strip() != json.dumps(rs):
        ctx.fail("another process reads something else from the pickle")
    return None


CHECKS = {
    "C19": Check([
        Stream("warm-up", c19_first, 1, rule="what the first calls of the process did"), Stream("hostile", c19_hostile, 40, 40, rule="texts that name files, modules, code, environment variables, URLs"), Stream("random", c19_random, 260, 2600), Stream("mixed", c19_mixed, 60, 900, rule="hostile text spliced into random documents"),
        Stream("sizes", c19_sizes, 48, 1500, rule="long, wide and deep documents"), Stream("worlds", c19_world, 600, 12000, rule="environment variables, working directory and files named by the texts changed between two calls"), Stream("settings", c19_settings, 104, 1500, rule="each of 26 unusual process settings, and random sets of them, while calls are made"), Stream("construction", c19_construct, 8, 40), Stream("first calls", c19_fresh, 16, 120, rule="state of a fresh process before and after its first calls"), Stream("system calls", c19_strace, 4, 32, rule="system calls between markers, seen by strace"), Stream("garbage", c19_threads_left, 4, 16, rule="observation only"),
    ], "distinct documents parsed under watch", "runtime monitoring: interpreter audit events, wrapped os functions, system calls and snapshots of process-wide state around every call",
        "no event but the one read of the input file is permitted during a call", setup=c19_setup, assumptions=["one-time effects of the first call of a kind on harmless text (lazy imports) are not judged", "the hooks see what CPython audits, the wrapped os functions and, in the traced processes, every file, network and process system call", *ASSUME[1:]]),
    "C20": Check([
        Stream("sizes", c20_sizes, len(SIZED), len(SIZED) * 12, rule="much of one thing (30 kinds), for 21 sizes from 5 to 257"), Stream("random", c20_random, 5000, 70000), Stream("markers", c20_markers, 1500, 20000, rule="user names equal to field and marker names"), Stream("functions", c20_funcs, 730, 7300), Stream("positions", c20_positions, 1500, 20000), Stream("empty", c20_empty, 15), Stream("other process", c20_process, 16, 120),
    ], "distinct documents whose results were taken apart", "runtime monitoring of results: object-graph inspection, serialisation round trips and comparison with documented shapes",
        "exact types, sharing, field sets and round trips of every result observed", assumptions=ASSUME),
}
