"""Runs cases on the Python binding: one JSON request per line on stdin, one JSON answer per line on stdout.
Every case runs in a process of its own, forked from one that only imported the module."""
import sys, os, json, gc, signal, threading
sys.path.insert(0, sys.argv[1])
import chanoma
from chanoma import Chanoma, Table, Item, Correspondence

os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


class Duck:
    def __init__(self, items):
        self.items = items


class Broken:
    @property
    def items(self):
        raise ValueError('no items')


def items(pairs):
    return [Item(a, b) for a, b in pairs]


def corr(c):
    kind, arg = c
    if kind == 'corr':
        return Correspondence(items(arg))
    if kind == 'duck':
        return Duck(items(arg))
    if kind == 'tuple':
        return Duck(Correspondence(items(arg)).items)
    if kind == 'set':
        return getattr(chanoma.characters_set, arg)()
    return [None, 5, object(), Duck(None), Duck([1]), Duck(items([['q', 'Q']]) + ['x']), Table(), 'abc', {'a': 'b'}, Broken(), Duck([Item('q', 'Q'), None]), Item('q', 'Q'), Chanoma()][arg]


def exc(e):
    if isinstance(e, OSError):
        return {'err': 'OSError'}
    return {'err': type(e).__name__}


def run(ops):
    T = [Table(), Table()]
    C = []
    out = []
    for op in ops:
        k = op[0]
        try:
            r = {'ok': None}
            if k == 'table':
                T[op[1]] = Table(**op[2]) if op[3] else Table(*[op[2][x] for x in ('preset', 'csv', 'yaml')])
            elif k == 'add':
                x = T[op[1]].add(corr(op[2]))
                if x is not None:
                    r = {'ok': repr(x)}
            elif k == 'make':
                kw = dict(op[2])
                kw['table'] = T[op[1]] if op[1] is not None else None
                if op[3]:
                    C.append(Chanoma(**kw))
                else:
                    C.append(Chanoma(*[kw[x] for x in ('table', 'neologdn', 'preset', 'rc', 'configfile')]))
            elif k == 'swap':
                T.reverse()
            elif k == 'drop':
                T[op[1]] = Table()
                gc.collect()
            elif k == 'norm':
                r = {'texts': [[c.normalize(t) for t in op[1]] for c in C]}
            elif k == 'norm_thread':
                r = {'texts': None}

                def go():
                    r['texts'] = [[c.normalize(t) for t in op[1]] for c in C]
                th = threading.Thread(target=go)
                th.start()
                th.join()
            elif k == 'surrogate':
                for c in C:
                    try:
                        c.normalize('a\ud800b')
                        r = {'err': 'no error'}
                    except Exception:
                        pass
            elif k == 'count':
                r = {'ok': len(getattr(chanoma.characters_set, op[1])().items)}
            else:
                raise SystemError(k)
        except BaseException as e:
            r = exc(e)
        out.append(r)
    return out


def case(req):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.alarm(60)
            for k, v in req.get('env', {}).items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            if req.get('cwd'):
                os.chdir(req['cwd'])
            b = json.dumps(run(req['ops'])).encode()
            with os.fdopen(wr, 'wb') as f:
                f.write(b)
        except BaseException:
            pass
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if not b:
        return {'died': st}
    return json.loads(b)


inp = sys.stdin.buffer
out = sys.stdout.buffer
while True:
    line = inp.readline()
    if not line:
        break
    req = json.loads(line)
    ans = run(req['ops']) if req.get('here') else case(req)
    out.write(json.dumps(ans).encode() + b'\n')
    out.flush()
