"""Shrink a failing program: drop forms, hoist children, replace by constants."""
import time
from .ref import S, Sym


def paths(e, p=()):
    yield p
    if isinstance(e, list):
        for i, x in enumerate(e):
            yield from paths(x, p + (i,))


def get(e, p):
    for i in p:
        e = e[i]
    return e


def put(e, p, v):
    if not p:
        return v
    e = list(e)
    e[p[0]] = put(e[p[0]], p[1:], v)
    return e


def size(e):
    return 1 + sum(size(x) for x in e) if isinstance(e, list) else 1


def candidates(forms):
    for i in range(len(forms) - 1):
        yield forms[:i] + forms[i + 1:]
    for p in sorted(paths(forms), key=len):
        if not p:
            continue
        e = get(forms, p)
        if isinstance(e, list) and e:
            for x in e:
                if isinstance(x, list) or not isinstance(x, Sym):
                    yield put(forms, p, x)
            if len(p) > 1:
                for c in (0, [], True):
                    if e != c:
                        yield put(forms, p, c)
            for i in range(1, len(e)):
                yield put(forms, p, e[:i] + e[i + 1:])
            for i in range(1, len(e) - 1):
                yield put(forms, p, e[:i] + e[i + 2:])


def reduce(forms, fails, budget=60, batch=64):
    """fails(list of programs) -> list of bool"""
    end = time.time() + budget
    best = forms
    progress = True
    while progress and time.time() < end:
        progress = False
        cur = []
        for c in candidates(best):
            if time.time() > end:
                break
            if size(c) >= size(best):
                continue
            cur.append(c)
            if len(cur) >= batch:
                r = fails(cur)
                hit = [x for x, ok in zip(cur, r) if ok]
                if hit:
                    best = min(hit, key=size)
                    progress = True
                    cur = []
                    break
                cur = []
        if cur and not progress:
            r = fails(cur)
            hit = [x for x, ok in zip(cur, r) if ok]
            if hit:
                best = min(hit, key=size)
                progress = True
    return best
