"""Run the command line tools in this process, with every change to files outside the scratch directory refused and recorded."""
import contextlib
import io
import os
import runpy
import sys

from . import core

_active = []
_installed = []


def _paths(event, args):
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return [path]
        return []
    if event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'shutil.rmtree', 'os.utime'):
        return [args[0]]
    if event in ('os.rename', 'os.link', 'shutil.move'):
        return [args[0], args[1]]
    if event == 'os.symlink':
        return [args[1]]
    return []


def _hook(event, args):
    if not _active:
        return
    top, log, deny_proc = _active[-1]
    if deny_proc and event in ('subprocess.Popen', 'os.system', 'os.kill', 'os.exec', 'os.posix_spawn'):
        log.append((event, repr(args)[:200]))
        raise PermissionError('%s not allowed here' % event)
    for p in _paths(event, args):
        if isinstance(p, int):
            continue
        p = os.path.abspath(os.fsdecode(p))
        cache = os.environ.get('XDG_CACHE_HOME') or top  # caches of the program, in scratch too
        if p == os.devnull or p.startswith(top + os.sep) or p == top or p.startswith(os.path.abspath(cache) + os.sep):
            continue
        log.append((event, p))
        raise PermissionError('%s outside the scratch directory: %s' % (event, p))


@contextlib.contextmanager
def contained(top, processes=False):
    """only files under top may be changed; anything else is refused and listed"""
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(True)
    log = []
    _active.append((os.path.abspath(top), log, not processes))
    try:
        yield log
    finally:
        _active.pop()


class Result:
    pass


def script(name, args, cwd, top, processes=False):
    """run python/<name> as a program inside this process; result has out, error, escaped"""
    res = Result()
    argv, path, old = list(sys.argv), list(sys.path), os.getcwd()
    out = io.StringIO()
    res.error = None
    sys.argv = [os.path.join(core.EXE, name)] + [str(a) for a in args]
    os.chdir(cwd)
    try:
        with contained(top, processes) as log, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                runpy.run_path(sys.argv[0], run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    res.error = 'exit %s %s' % (e.code, err.getvalue()[-300:])
            except core.CaseTimeout:
                raise
            except Exception as e:
                import traceback
                res.error = repr(e) + ' ' + ' | '.join(traceback.format_exc().splitlines()[-3:])
    finally:
        os.chdir(old)
        sys.argv, sys.path[:] = argv, path
    res.out = out.getvalue()
    res.escaped = log
    return res
