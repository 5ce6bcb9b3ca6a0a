"""Adaptor: SwaCache.tla operations on pymllm's RadixCache with a window.  Slots are
handed out here, lowest first, as they come back."""
import torch

from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache


class Pool:
    device = torch.device("cpu")

    def __init__(self):
        self.full, self.win = [], []

    def free(self, idx):
        self.full += [int(x) for x in idx]

    def free_swa(self, idx):
        self.win += [int(x) for x in idx]


class Plain:
    """A pool without window KV of its own."""
    device = torch.device("cpu")

    def __init__(self):
        self.full, self.win = [], []

    def free(self, idx):
        self.full += [int(x) for x in idx]


class Swa:
    def __init__(self, W, P, cap, pool=Pool):
        self.pool, self.P, self.cap = pool(), P, cap
        self.c = RadixCache(page_size=P, sliding_window_size=W, token_to_kv_pool_allocator=self.pool)
        self.locks, self.stored, self.log = [], set(), []

    def key(self, path):
        return RadixKey(list(path[1:]), None if path[0] == 0 else f"ns{path[0]}")

    def own(self, n):
        free = [x for x in range(1, self.cap + 1) if x not in self.stored]
        return free[:n] if len(free) >= n else None

    def do(self, op, a):
        """Skips what cannot be done here; records what was done."""
        c, r, a = self.c, {}, dict(a)
        if op == "match":
            m = c.match_prefix(self.key(a["key"]))
            r = dict(idx=[int(x) for x in m.indices], n=m.prefix_len)
            a["lock"] = a["lock"] and m.prefix_len > 0
            if a["lock"]:
                self.locks.append((m.last_node, c.inc_lock_ref(m.last_node), list(a["key"][:1 + m.prefix_len]), r["idx"]))
        elif op == "insert":
            i, q, pre = a["i"], list(a["key"]), []
            if i:
                if i > len(self.locks) or self.locks[i - 1][2] != q[:len(self.locks[i - 1][2])] or len(self.locks[i - 1][2]) - 1 < a["cut"]:
                    return
                idx = self.locks[i - 1][3]
                pre = idx[:len(idx) - a["cut"]]
            new = self.own(len(q) - 1 - len(pre))
            if new is None:
                return
            a["vals"] = pre + new
            m = c.insert(self.key(q), torch.tensor(a["vals"], dtype=torch.int64), prev_prefix_len=len(pre), swa_evicted_seqlen=a["e"])
            r = dict(n=m.prefix_len)
            kept = (len(q) - 1) // self.P * self.P
            self.stored |= set(new) - set(a["vals"][kept:])
            if a["lock"]:
                node, tok = m.last_node, c.inc_lock_ref(m.last_node)
                path, cur = [], node
                while cur is not None and cur.parent is not None:
                    path = [int(x) for x in cur.value] + path
                    cur = cur.parent
                self.locks.append((node, tok, q[:1 + kept], path))
        elif op == "unlock":
            if a["i"] > len(self.locks):
                return
            node, tok = self.locks.pop(a["i"] - 1)[:2]
            c.dec_lock_ref(node, tok)
        elif op == "evict":
            e = c.evict(a["n"], a["k"])
            r = dict(n=e.full_evicted, w=e.swa_evicted)
        elif op == "reset":
            if self.locks or not c.total_size():
                return
            c.reset()
            self.stored.clear()
        r.update(evictable=c.evictable_size(), protected=c.protected_size(), total=c.total_size(),
                 wevictable=c.swa_evictable_size(), wprotected=c.swa_protected_size(), full=self.pool.full, win=self.pool.win)
        self.stored -= set(self.pool.full)
        self.pool.full, self.pool.win = [], []
        self.log.append(dict(op=op, args=a, res=r))
