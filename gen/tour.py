"""Walks that take every transition of a model that was explored exhaustively."""
from collections import deque

def tours(emitted, limit=300, steps=False):
    """emitted: {init: id} and {f: id, op: .., t: id}; lists of operations from an initial state
    (steps: of an operation, whether it leads to another state, and that state)"""
    key = lambda x: tuple(x) if isinstance(x, list) else x
    inits, out = [], {}
    seen = set()
    for e in emitted:
        if "init" in e:
            inits.append(key(e["init"]))
        else:
            k = (key(e["f"]), str(e["op"]))
            if k not in seen:
                seen.add(k)
                out.setdefault(key(e["f"]), []).append((e["op"], key(e["t"])))
    # shortest way to each state
    back = {i: None for i in inits}
    q = deque(inits)
    while q:
        s = q.popleft()
        for op, t in out.get(s, []):
            if t not in back:
                back[t] = (s, op)
                q.append(t)
    def way(s):
        w = []
        while back[s]:
            s, op = back[s]
            w.append(op)
        return w[::-1]
    todo = {s: list(es) for s, es in out.items()}
    for es in todo.values():
        es.sort(key=lambda e: str(e[0]), reverse=True)
    def near(s, far):
        """the nearest state, at most far steps away, that has something left to do"""
        if todo.get(s):
            return []
        prev, q, dist = {s: None}, deque([s]), {s: 0}
        while q:
            x = q.popleft()
            if dist[x] >= far:
                continue
            for op, t in out.get(x, []):
                if t in prev:
                    continue
                prev[t], dist[t] = (x, op), dist[x] + 1
                if todo.get(t):
                    w = []
                    while prev[t]:
                        t, op = prev[t]
                        w.append(op)
                    return w[::-1]
                q.append(t)
        return None
    walks = []
    for s in list(back):            # in breadth-first order
        while todo.get(s):
            w = way(s)
            x = s
            while len(w) < limit:
                p = near(x, 3)
                if p is None:
                    break
                for op in p:
                    w.append(op)
                    x = next(t for o, t in out[x] if o is op)
                es = todo[x]
                # stay while there is something that does not lead away
                i = next((i for i, e in enumerate(es) if e[1] == x), len(es) - 1)
                op, t = es.pop(i)
                w.append(op)
                x = t
            walks.append(w)
    if not steps:
        return walks
    to = {(f, str(op)): t for f, es in out.items() for op, t in es}
    def mark(w):
        x, r = inits[0], []
        for op in w:
            t = to[x, str(op)]
            r.append((op, t != x, t))
            x = t
        return r
    return [mark(w) for w in walks]
