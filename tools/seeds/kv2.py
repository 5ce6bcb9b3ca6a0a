M = "pymllm/mem_cache/"
HEAD = """
import torch, logging
logging.disable(logging.CRITICAL)
"""
SWA = HEAD + """
from pymllm.mem_cache import RadixCache, RadixKey
class Pool:
    device = torch.device('cpu')
    def __init__(s): s.full, s.win = [], []
    def free(s, i): s.full += [int(x) for x in i]
    def free_swa(s, i): s.win += [int(x) for x in i]
def K(*t): return RadixKey(list(t))
def V(*v): return torch.tensor(v, dtype=torch.int64)
def L(m): return [int(x) for x in m.indices]
"""
MB = HEAD + """
from pymllm.mem_cache import MambaRadixCache, RadixKey
class Pool:
    device = torch.device('cpu')
    def __init__(s): s.out = []
    def free(s, i): s.out += [int(x) for x in i]
    def free_track_slot(s, i): s.out.append(int(i))
def K(*t): return RadixKey(list(t))
def V(*v): return torch.tensor(v, dtype=torch.int64)
p, m = Pool(), Pool()
c = MambaRadixCache(page_size=1, token_to_kv_pool_allocator=p, mamba_pool=m)
"""
R, H = M + "radix_cache.py", M + "mamba_radix_cache.py"


def q(id, property, needs, breaks, edits, py):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, py=py)


SEEDS = [
 q("k04-boundary-split", "K04", "a lock whose window ends inside an entry, that entry split by another lookup, then the unlock",
   "the mark of where a window lock ends stays with the lower part of a split entry: the upper part stays locked for ever",
   [(R, """        new_node.swa_boundary_id = child.swa_boundary_id
        child.swa_boundary_id = None
""", "")],
   SWA + """
p = Pool(); c = RadixCache(page_size=1, sliding_window_size=2, token_to_kv_pool_allocator=p)
c.insert(K(1, 2, 3, 4), V(1, 2, 3, 4))
m = c.match_prefix(K(1, 2, 3, 4))
t = c.inc_lock_ref(m.last_node)
c.match_prefix(K(1, 2))
c.dec_lock_ref(m.last_node, t)
assert c.swa_protected_size() == 0 and c.swa_evictable_size() == 4, (c.swa_protected_size(), c.swa_evictable_size())
"""),
 q("k04-split-tomb", "K04", "an interior entry without window KV that a later lookup leaves in the middle",
   "the upper part of a split entry counts as having window KV that was dropped: lookups return an unusable prefix",
   [(R, """        new_node.swa_tombstone = child.swa_tombstone
""", "")],
   SWA + """
p = Pool(); c = RadixCache(page_size=1, sliding_window_size=2, token_to_kv_pool_allocator=p)
c.insert(K(1, 2, 3, 4), V(1, 2, 3, 4))
c.insert(K(1, 2, 3, 4, 5), V(1, 2, 3, 4, 5), prev_prefix_len=4)
c.insert(K(1, 2, 3, 4, 6), V(1, 2, 3, 4, 6), prev_prefix_len=4)
c.evict(0, 4)
print(p.win, p.full)
m = c.match_prefix(K(1, 2, 9))
assert m.prefix_len == 0 or not set(p.win) & {1, 2}, (m.prefix_len, p.win)
"""),
 q("k04-shared-boundary", "K04", "two locks whose windows end at the same entry, and the first taken released while the second holds",
   "a second lock overwrites where the first one ends: releasing the first runs on to the root and the counts go negative",
   [(R, """                    if cur.swa_boundary_id is None:
                        self._swa_boundary_counter += 1
                        cur.swa_boundary_id = self._swa_boundary_counter
""", """                    self._swa_boundary_counter += 1
                    cur.swa_boundary_id = self._swa_boundary_counter
""")],
   SWA + """
p = Pool(); c = RadixCache(page_size=1, sliding_window_size=2, token_to_kv_pool_allocator=p)
c.insert(K(1, 2), V(1, 2))
c.insert(K(1, 2, 3, 4), V(1, 2, 3, 4), prev_prefix_len=2)
c.insert(K(1, 2, 3, 4, 5), V(1, 2, 3, 4, 5), prev_prefix_len=4)
c.insert(K(1, 2, 3, 4, 6), V(1, 2, 3, 4, 6), prev_prefix_len=4)
a = c.match_prefix(K(1, 2, 3, 4, 5)).last_node; ta = c.inc_lock_ref(a)
b = c.match_prefix(K(1, 2, 3, 4, 6)).last_node; tb = c.inc_lock_ref(b)
c.dec_lock_ref(a, ta)
c.dec_lock_ref(b, tb)
assert (c.swa_evictable_size(), c.swa_protected_size()) == (6, 0), (c.swa_evictable_size(), c.swa_protected_size())
c.evict(0, 6)
assert len(p.win) + len([x for x in p.full]) >= 6, (p.win, p.full)
"""),
 q("k04-partial-window", "K04", "a lookup that leaves an entry in the middle right behind one without window KV",
   "the window is counted with what lies behind the point where the lookup left: too short a window is accepted",
   [(R, """                if not new_node.swa_tombstone:
                    non_tomb_len += len(new_node.value)
""", """                if not new_node.swa_tombstone:
                    non_tomb_len += len(new_node.value) + len(child.value)
""")],
   SWA + """
p = Pool(); c = RadixCache(page_size=1, sliding_window_size=3, token_to_kv_pool_allocator=p)
c.insert(K(1, 2, 3, 4, 5, 6, 7), V(1, 2, 3, 4, 5, 6, 7), swa_evicted_seqlen=3)
m = c.match_prefix(K(1, 2, 3, 4, 9))
assert m.prefix_len == 0, m.prefix_len
m = c.match_prefix(K(1, 2, 3, 4, 5, 6, 9))
assert m.prefix_len == 6, m.prefix_len
"""),
 q("k05-stale-ancestors", "K05", "a used path whose end has no snapshot but an ancestor has, then eviction of snapshots",
   "ancestors above an entry without a snapshot are not refreshed: a snapshot in use goes before older ones",
   [(H, """        while cur != root:
            if cur.id in""", """        while cur != root and cur.id in self._cache:
            if cur.id in""")],
   MB + """
c.insert(K(1, 2), V(1, 2), mamba_value=V(91))
c.insert(K(5, 6), V(5, 6), mamba_value=V(92))
c.insert(K(1, 2, 3), V(1, 2, 3))
c.match_prefix(K(1, 2, 3))
c.evict(0, 1)
assert m.out == [92], m.out
"""),
 q("k05-unlisted", "K05", "an entry stored first without and later with a snapshot, then eviction of snapshots",
   "a snapshot added to an existing entry never becomes evictable although it is counted so",
   [(H, """            self.mamba_lru.insert_mru(node)
            self._mamba_evictable +=""", """            self.mamba_lru.touch_mru(node)
            self._mamba_evictable +=""")],
   MB + """
c.insert(K(1, 2), V(1, 2))
c.insert(K(1, 2), V(1, 2), mamba_value=V(91))
e = c.evict(0, 1)
assert e.mamba_evicted == 1 and m.out == [91], (e, m.out)
"""),
 q("k05-branch", "K05", "a cached path where a later entry, not the first, lacks the snapshot",
   "the place reported for the first missing snapshot is the end of the entry, not its start",
   [(H, """            if mamba_branching_seqlen is None and child.mamba_tombstone:
                mamba_branching_seqlen = total_matched
            total_matched += len(child.value)
""", """            total_matched += len(child.value)
            if mamba_branching_seqlen is None and child.mamba_tombstone:
                mamba_branching_seqlen = total_matched
""")],
   MB + """
c.insert(K(1, 2), V(1, 2), mamba_value=V(91))
c.insert(K(1, 2, 3, 4), V(1, 2, 3, 4))
r = c.match_prefix(K(1, 2, 3, 4))
assert r.mamba_branching_seqlen == 2, r.mamba_branching_seqlen
"""),
 q("k05-lock-twice", "K05", "two locks on one entry, one of them released, then eviction of snapshots",
   "a snapshot counts as free as soon as one of its locks goes",
   [(H, """            node.mamba_lock_ref -= 1
            if node.mamba_lock_ref == 0 and""", """            node.mamba_lock_ref = max(node.mamba_lock_ref - 2, 0)
            if node.mamba_lock_ref == 0 and""")],
   MB + """
c.insert(K(1, 2), V(1, 2), mamba_value=V(91))
n = c.match_prefix(K(1, 2)).last_node
a = c.inc_lock_ref(n); b = c.inc_lock_ref(n)
c.dec_lock_ref(n, a)
assert (c.mamba_evictable_size(), c.mamba_protected_size()) == (0, 1), (c.mamba_evictable_size(), c.mamba_protected_size())
c.evict(0, 1)
assert m.out == [], m.out
"""),
]
