"""Paths from the initial state that together cover every edge of a transition graph."""
import random
from collections import defaultdict, deque


def edge_cover(inits, edges, max_len=60, seed=1, limit=None):
    """edges: [(src, dst, label)].  Returns a list of label lists."""
    rnd = random.Random(seed)
    out = defaultdict(list)
    for i, (a, b, _) in enumerate(edges):
        out[a].append(i)
    for a in out:
        rnd.shuffle(out[a])
    # breadth-first distance tree from the initial states
    parent = {}
    dq = deque()
    for s in inits:
        parent[s] = None
        dq.append(s)
    order = []
    while dq:
        s = dq.popleft()
        order.append(s)
        for i in out[s]:
            b = edges[i][1]
            if b not in parent:
                parent[b] = i
                dq.append(b)
    todo = defaultdict(list)
    n_todo = 0
    for a in order:
        todo[a] = list(out[a])
        n_todo += len(todo[a])
    done = [False] * len(edges)

    def path_to(s):
        p = []
        while parent[s] is not None:
            i = parent[s]
            p.append(i)
            s = edges[i][0]
        return p[::-1]

    def next_uncovered(s, budget):
        """shortest walk from s to a state with an uncovered edge, within budget"""
        if budget <= 0:
            return None
        seen = {s: None}
        dq = deque([(s, 0)])
        visited = 0
        while dq:
            x, d = dq.popleft()
            visited += 1
            if visited > 200:
                return None
            if x != s and clean(x):
                p = []
                while seen[x] is not None:
                    i = seen[x]
                    p.append(i)
                    x = edges[i][0]
                return p[::-1]
            if d < budget:
                for i in out[x]:
                    b = edges[i][1]
                    if b not in seen:
                        seen[b] = i
                        dq.append((b, d + 1))
        return None

    def clean(s):
        t = todo[s]
        while t and done[t[-1]]:
            t.pop()
        return bool(t)

    paths = []
    pending = deque(order)
    while pending:
        s = pending[0]
        if not clean(s):
            pending.popleft()
            continue
        walk = path_to(s)
        for i in walk:
            done[i] = True
        cur = s
        while len(walk) < max_len or not walk:
            if clean(cur):
                i = todo[cur].pop()
                done[i] = True
                walk.append(i)
                cur = edges[i][1]
                continue
            nx = next_uncovered(cur, min(4, max_len - len(walk) - 1))
            if nx is None:
                break
            for i in nx:
                done[i] = True
                walk.append(i)
                cur = edges[i][1]
        if len(walk) <= len(path_to(s)) :
            # max_len too small to take a step from s: force one
            if clean(s):
                i = todo[s].pop()
                done[i] = True
                walk = path_to(s) + [i]
        paths.append([edges[i][2] for i in walk])
        if limit and len(paths) >= limit:
            break
    return paths, sum(done)
