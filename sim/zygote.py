"""Forks one fresh child per simulated run.

Started with a chosen PYTHONHASHSEED and computer-algebra cache configuration;
installs the seams, imports the code under test once, then serves jobs read as
JSON lines.  Every run starts from the same memory image, so a run is a pure
function of its case.
"""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core  # noqa


def setup():
    from sim import pool
    pool.install()
    core.install_lock_seam()
    core.install_monitoring()
    sys.path.insert(0, core.SRC.rstrip('/'))
    import numpy  # noqa
    import sympy  # noqa
    import jinja2  # noqa
    # no byte code of the code under test is read from, or written to, its tree
    sys.pycache_prefix = os.environ.get('VERIF_PYC') or '/nonexistent'
    import sympkf  # noqa
    if not os.path.abspath(sympkf.__file__).startswith(core.PKG):
        raise core.HarnessError(f'sympkf imported from {sympkf.__file__}, not from {core.PKG}')
    for m in ('symbolic', 'symbolic.pkfcas', 'symbolic.util', 'symbolic.random', 'symbolic.finite_difference',
              'symbolic.model_builder_FD', 'symbolic.model_builder_manifold', 'model.model'):
        importlib.import_module('sympkf.' + m)
    core.install_set_seam()
    import gc
    gc.collect()
    gc.freeze()


def from_sut(e):
    """Did the exception pass through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if f.startswith(core.PKG) or f.startswith(core.GEN_PREFIX):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def execute(check, case):
    mod = importlib.import_module('checks.' + check.lower())
    ctx = core.Ctx(case)
    core.CTX = ctx
    ctx.in_worker = False
    ctx.step_cap = getattr(mod, 'STEP_CAP', 4_000_000)
    res = {'status': 'ok'}
    try:
        with ctx.hooks():
            mod.run_case(case, ctx)
    except core.Violation as v:
        res = {'status': 'violation', 'cls': v.cls, 'msg': v.msg[:1500]}
    except core.SimHang as e:
        res = {'status': 'violation', 'cls': 'hang', 'msg': str(e) or 'hang'}
    except core.HarnessError as e:
        res = {'status': 'error', 'msg': 'harness: ' + str(e)}
    except BaseException as e:  # noqa
        txt = ''.join(traceback.format_exception(e))[-3000:]
        if from_sut(e) and not isinstance(e, (core.SimCrash,)):
            res = {'status': 'violation', 'cls': 'raises:' + type(e).__name__, 'msg': txt[-1200:]}
        else:
            res = {'status': 'error', 'msg': txt}
    finally:
        w = ctx.world
        if w:
            w.end()
    core.CTX = None
    if res['status'] == 'violation':
        ctx.log('violation', res['cls'])
    res.update(digest=ctx.digest(), sched=ctx.sched_digest(), stats=ctx.stats, nevents=ctx.nevents,
               points=ctx.points, simtime=ctx.simtime, trace=ctx.trace[-60:],
               concrete=getattr(ctx, 'concrete', None), nontrivial=getattr(ctx, 'nontrivial', True),
               state=getattr(ctx, 'state_key', None))
    return res


def job(line):
    req = json.loads(line)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(dn, 2)
            try:
                with core.coverage(os.environ.get('VERIF_COV')):
                    res = execute(req['check'], req['case'])
            except BaseException:  # noqa
                res = {'status': 'error', 'msg': traceback.format_exc()[-3000:]}
            data = json.dumps(res, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    end = time.monotonic() + req.get('timeout', 120)
    buf = b''
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {'status': 'timeout', 'msg': f'wall limit of {req.get("timeout", 120)} s'}
    try:
        return json.loads(buf)
    except ValueError:
        return {'status': 'error', 'msg': f'child ended with status {st} and no answer'}


def main():
    try:
        setup()
    except BaseException:  # noqa
        print(json.dumps({'ready': False, 'msg': traceback.format_exc()[-3000:]}), flush=True)
        return 2
    print(json.dumps({'ready': True}), flush=True)
    for line in sys.stdin:
        t0 = time.monotonic()
        res = job(line)
        res['wall'] = time.monotonic() - t0
        print(json.dumps(res), flush=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
