"""Adaptor: RadixCache.tla operations on pymllm's RadixCache."""
import torch

from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache


class Pool:
    """Records what the cache gives back."""
    device = torch.device("cpu")

    def __init__(self):
        self.freed = []

    def free(self, idx):
        self.freed += [int(x) for x in idx]

    def take(self):
        f, self.freed = sorted(self.freed), []
        return f


class Radix:
    def __init__(self, page=1, bigram=False):
        self.pool = Pool()
        self.c = RadixCache(page_size=page, token_to_kv_pool_allocator=self.pool)
        self.locks = []
        self.bigram = bigram

    def key(self, path):
        toks = [(t, t + 1) for t in path[1:]] if self.bigram else list(path[1:])
        return RadixKey(toks, None if path[0] == 0 else f"ns{path[0]}")

    def step(self, op, args):
        r = {}
        c = self.c
        if op == "match":
            m = c.match_prefix(self.key(args["key"]))
            r = dict(idx=[int(x) for x in m.indices], n=m.prefix_len)
            if args["lock"]:
                self.locks.append((m.last_node, c.inc_lock_ref(m.last_node)))
        elif op == "insert":
            q = c.insert(self.key(args["key"]), torch.tensor(args["vals"], dtype=torch.int64))
            r = dict(n=q.prefix_len)
            if args["lock"]:
                self.locks.append((q.last_node, c.inc_lock_ref(q.last_node)))
        elif op == "unlock":
            node, tok = self.locks.pop(args["i"] - 1)
            c.dec_lock_ref(node, tok)
        elif op == "evict":
            r = dict(n=c.evict(args["n"]).full_evicted)
        elif op == "reset":
            c.reset()
        r.update(evictable=c.evictable_size(), protected=c.protected_size(), total=c.total_size(),
                 freed_set=self.pool.take())
        return r
