"""Concrete replay worker: runs harnesses on the real, unpatched code of /repo with float inputs.

As a worker: JSON requests on stdin, one JSON answer per line on stdout.
Stand-alone: replay.py FILE.json   (a replay file written by a check) -> exit 1 when it reproduces.
"""
import importlib
import json
import os
import resource
import signal
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
# make sure that the working tree is what gets imported
sys.path.insert(0, REPO)
sys.meta_path = [f for f in sys.meta_path if 'editable' not in repr(f)]
warnings.simplefilter('ignore')


def load(prop):
    from engine import harness
    importlib.import_module(f'props.{prop}')
    return {h.name: h for h in harness.HARNESSES[prop]}


def handle(hs, req):
    from engine.harness import run_concrete
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            # seconds of CPU, since the machine can be loaded
            signal.setitimer(signal.ITIMER_PROF, int(req.get('timeout', 20)))
            signal.alarm(120)
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            res = run_concrete(hs[req['harness']], req['inputs'], req['choices'], req['bools'])
            os.write(w, json.dumps(res).encode()[:60000])
        except BaseException as e:
            try:
                os.write(w, json.dumps(['error', type(e).__name__, str(e)]).encode()[:60000])
            except Exception:
                code = 1
        os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
        return ['endless', 'does not terminate', 'stopped after 20 s of CPU']
    if not data:
        return ['error', 'no answer', str(st)]
    return json.loads(data)


def main():
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        hs = load(req['property'])
        res = handle(hs, req)
        print(json.dumps(res))
        sys.exit(1 if res[0] in ('fail', 'exception', 'endless') else 0)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    first = json.loads(sys.stdin.readline())
    try:
        hs = load(first['property'])
    except BaseException as e:
        out.write(json.dumps(['error', 'load', repr(e)]) + '\n')
        out.flush()
        return
    out.write(json.dumps(['ready']) + '\n')
    out.flush()
    for line in sys.stdin:
        out.write(json.dumps(handle(hs, json.loads(line))) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
