"""Delta debugging of a plan, which is any JSON value: drop list elements and members, make numbers smaller."""
import copy, json, time
from concurrent.futures import ThreadPoolExecutor


def size(x):
    return len(json.dumps(x))


def paths(x, p=()):
    yield p, x
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], p + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from paths(y, p + (i,))


def put(x, p, f):
    x = copy.deepcopy(x)
    if not p:
        return f(x)
    y = x
    for k in p[:-1]:
        y = y[k]
    r = f(y[p[-1]])
    if r is DROP:
        del y[p[-1]]
    else:
        y[p[-1]] = r
    return x


DROP = object()


def candidates(x):
    lists = sorted(((p, y) for p, y in paths(x) if isinstance(y, list) and y), key=lambda t: -size(t[1]))
    for p, y in lists:
        n = len(y)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                if p == () or n > 1 or k < n or True:
                    yield put(x, p, lambda l, i=i, k=k: l[:i] + l[i + k:])
            k //= 2
    for p, y in paths(x):
        if p and isinstance(p[-1], str) and isinstance(y, (dict, list)):
            yield put(x, p, lambda _: DROP)
        # a nested list of steps in place of the step
        if isinstance(y, dict) and isinstance(y.get("b"), list) and p and isinstance(p[-1], int):
            q = p[:-1]
            yield put(x, q, lambda l, i=p[-1], b=y["b"]: l[:i] + b + l[i + 1:])
    for p, y in paths(x):
        if isinstance(y, bool) or not isinstance(y, int) or y == 0:
            continue
        yield put(x, p, lambda _: 0)
        if abs(y) > 1:
            yield put(x, p, lambda v: 1)
            yield put(x, p, lambda v: v // 2)


def shrink(plan, bad, seconds, jobs):
    """bad(plan) is a message if the plan fails; returns the smallest failing plan found and its message."""
    t0 = time.time()
    best, msg = plan, None
    progress = True
    seen = set()
    with ThreadPoolExecutor(jobs) as ex:
        while progress and time.time() - t0 < seconds:
            progress = False
            batch = []

            def flush():
                for c, m in zip(batch, ex.map(bad, batch)):
                    if m:
                        return c, m
                return None

            for c in candidates(best):
                key = json.dumps(c)
                if key in seen or len(key) > len(json.dumps(best)):
                    continue
                seen.add(key)
                batch.append(c)
                if len(batch) == jobs:
                    r = flush()
                    batch = []
                    if r:
                        best, msg = r
                        progress = True
                        break
                if time.time() - t0 > seconds:
                    break
            if not progress and batch:
                r = flush()
                if r:
                    best, msg = r
                    progress = True
    return best, msg
