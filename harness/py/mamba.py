"""Adaptor: MambaCache.tla operations on pymllm's MambaRadixCache."""
import torch

from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache


class Pool:
    device = torch.device("cpu")

    def __init__(self):
        self.out = []

    def free(self, idx):
        self.out += [int(x) for x in idx]

    def free_track_slot(self, slot):
        self.out.append(int(slot))

    def take(self):
        o, self.out = sorted(self.out), []
        return o


class Mamba:
    def __init__(self, page=1):
        self.pool, self.snaps = Pool(), Pool()
        self.c = MambaRadixCache(page_size=page, token_to_kv_pool_allocator=self.pool, mamba_pool=self.snaps)
        self.locks = []

    def key(self, path):
        return RadixKey(list(path[1:]), None if path[0] == 0 else f"ns{path[0]}")

    def lock(self, node):
        self.locks.append((node, self.c.inc_lock_ref(node)))

    def step(self, op, a):
        c, r = self.c, {}
        if op == "match":
            m = c.match_prefix(self.key(a["key"]))
            v = m.last_node.mamba_value
            r = dict(idx=[int(x) for x in m.indices], n=m.prefix_len, snap=int(v[0]) if v is not None and len(v) else 0,
                     branch=-1 if m.mamba_branching_seqlen is None else m.mamba_branching_seqlen)
            if a["lock"]:
                self.lock(m.last_node)
        elif op == "insert":
            q = c.insert(self.key(a["key"]), torch.tensor(a["vals"], dtype=torch.int64),
                         mamba_value=torch.tensor([a["snap"]]) if a["snap"] else None)
            r = dict(n=q.prefix_len, exist=q.mamba_exist)
            if a["lock"]:
                self.lock(q.last_node)
        elif op == "unlock":
            c.dec_lock_ref(*self.locks.pop(a["i"] - 1))
        elif op == "evict":
            e = c.evict(a["n"], a["k"])
            r = dict(n=e.full_evicted, s=e.mamba_evicted)
        elif op == "reset":
            c.reset()
        r.update(evictable=c.evictable_size(), protected=c.protected_size(), total=c.total_size(),
                 sevictable=c.mamba_evictable_size(), sprotected=c.mamba_protected_size(),
                 freed=self.pool.take(), dropped=self.snaps.take())
        return r
