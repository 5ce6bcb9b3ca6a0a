"""Adaptors: PrefixStore.tla, BlockStore.tla and LayerCache.tla on the C++ prefix cache (through harness/cpp/prefix.cpp)."""
from lib import cxx

P = "mllm/engine/prefix_cache/"
SOURCES = [P + x for x in ("RadixTree.cpp", "ZenFS.cpp", "Allocator.cpp", "TLB.cpp", "Cache.cpp")] + [
    "mllm/nn/lmcache/PrefixCache.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/core/SlicePrimitives.cpp",
    "mllm/core/DeviceTypes.cpp", "mllm/utils/Log.cpp"] + cxx.XXH
FLOAT, INT8 = 0, 16
GONE = (1 << 32) - 1     # INVALID_VP_ADDR


def build():
    return cxx.build("prefix", ["prefix.cpp", "tensor_stub.cpp"], SOURCES)


def nums(*xs):
    return " ".join(str(x) for x in xs)


class Tree:
    """The bare radix tree.  Every position handed in gets an address of its own."""

    def __init__(self, d, layers=1, watch=()):
        self.d, self.layers, self.watch = d, layers, list(watch)
        self.n, self.owner, self.addr = 0, {}, {}
        d.ask(f"new tree {layers}")

    def fresh(self, path):
        self.owner[len(self.owner) + 1] = path
        return len(self.owner)

    def look(self, key):
        r = self.d.ask(nums("find", key[0], len(key) - 1, *key[1:]))
        n = r["n"]
        if bool(r["ok"]) != (n > 0) or r["path"] != n:
            return dict(n=n, of="inconsistent")
        rows = {(l, kind): [(x - l * 2 - kind) / 16 for x in row] for kind, c in enumerate("kv") for l, row in enumerate(r[c])}
        if len(rows) != 2 * self.layers or any(row != rows[0, 0] for row in rows.values()):
            return dict(n=n, of=sorted(rows.items()))
        return dict(n=n, of=[self.owner.get(x, "nobody's") for x in rows[0, 0]])

    def looks(self):
        return [self.look(w) for w in self.watch]

    def step(self, op, a):
        self.n += 1
        if op == "insert":
            key, known = a
            ids = []
            for i in range(1, len(key)):
                p = tuple(key[:i + 1])
                if i <= known:      # stored already: the same address again, or another one (the first one stays)
                    ids.append(self.addr[p] if self.n % 2 else self.fresh("replaced"))
                else:
                    self.addr[p] = self.fresh(list(p))
                    ids.append(self.addr[p])
            rows = [[i * 16 + l * 2 + kind for i in ids] for kind in (0, 1) for l in range(self.layers)]
            r = self.d.ask(nums("ins", key[0], len(key) - 1, *key[1:], *[x for row in rows for x in row]))
            return dict(ok=bool(r["ok"]), looks=self.looks())
        if op == "find":
            return dict(found=self.look(a[0]))
        self.owner = {x: "cleared" for x in self.owner}
        self.d.ask("clear")
        return dict(looks=self.looks())


class Geometry:
    def __init__(self, page, lane, ele, mmap, dtype=FLOAT, ve=None):
        self.page, self.lane, self.ele, self.mmap, self.dtype, self.ve = page, lane, ele, mmap, dtype, ve or ele
        self.blocks = 1 << (page + lane)

    def new(self, what, layers, dir, window=0, mask="0"):
        return nums("new", what, layers, self.page, self.lane, self.ele, self.ve, self.dtype, self.mmap, dir, window, mask)


class Blocks:
    """The allocator behind one of its interfaces; handle -> address.  pools: [(layer, kind)]."""

    def __init__(self, d, what, geo, pools, layers, dir, n):
        self.d, self.pools, self.dir, self.n = d, pools, dir, n
        self.bits = [geo.page + geo.lane] * len(pools)
        d.ask(geo.new(what, layers, dir))
        self.addr, self.tag, self.blobs = {}, {}, [1] * len(pools)

    def pool(self, h):
        return (h - 1) % len(self.pools)

    def res(self):
        hs = sorted(self.tag)
        got = self.d.ask(nums("read", *[x for h in hs for x in (*self.pools[self.pool(h)], self.addr[h])]))["b"] if hs else []
        seen, clash = {}, set()
        for h, a in self.addr.items():
            if seen.setdefault((self.pool(h), a), h) != h:
                clash.add(h)
        return dict(mem=[dict(zip(hs, got)).get(h, 0) for h in range(1, self.n + 1)], clash=clash, blobs=list(self.blobs))

    def step(self, op, a):
        for h in sorted(a[0]):
            p = self.pool(h)
            l, k = self.pools[p]
            if op == "alloc":
                self.addr[h] = x = self.d.ask(nums("alloc", l, k))["a"]
                self.blobs[p] = max(self.blobs[p], (x >> self.bits[p]) + 1)
            elif op == "free":
                self.d.ask(nums("free", l, k, self.addr.pop(h)))
                self.tag.pop(h, None)
            elif op == "write":
                self.tag[h] = (a[1] + h) % 250 + 1
                self.d.ask(nums("fill", l, k, self.addr[h], self.tag[h]))
            else:
                self.d.ask(nums(op, l, k, self.addr[h]))
        return self.res()


class Layered:
    """CpuPrefixCache (or Cache): blocks are filled with a tag of (position id, layer, kind)."""

    def __init__(self, d, what, geo, layers, sliding, window, dir):
        self.d, self.what, self.layers, self.sliding = d, what, layers, set(sliding)
        self.bits = [(window.bit_length() - 1) if l + 1 in self.sliding else geo.page + geo.lane for l in range(layers)]
        d.ask(geo.new(what, layers, dir, window, "".join("1" if l + 1 in self.sliding else "0" for l in range(layers))))
        self.at = {}      # (id, layer, kind) -> address
        self.blobs = [1] * layers

    def tag(self, i, l, kind):
        return (i * 8 + l * 2 + kind) % 251 + 1

    def find(self, key):
        r = self.d.ask(nums("find", key[0], len(key) - 1, *key[1:]))
        n = r["n"]
        if bool(r["ok"]) != (n > 0):
            return dict(n=n, rows="inconsistent"), r
        back = {(l, kind, a): i for (i, l, kind), a in self.at.items()}
        rows = []
        for l in range(self.layers):
            two = [[0 if a == GONE else back.get((l, kind, a), -a) for a in r[c][l]] for kind, c in enumerate("kv")]
            rows.append(two[0] if two[0] == two[1] else two)
        return dict(n=n, rows=rows if n else [[] for _ in rows]), r

    def step(self, op, a):
        key = a[0]
        if op == "promote":
            key, n, base = a
            _, r = self.find(key)
            if r["n"] != n:
                return dict(found=dict(n=r["n"]))
            rows = {(l, kind): list(r["kv"[kind]][l]) if n else [] for l in range(self.layers) for kind in (0, 1)}
            for j in range(len(key) - 1 - n):
                for l in range(self.layers):
                    for kind in (0, 1):
                        x = self.d.ask(nums("alloc", l, kind))["a"]
                        self.d.ask(nums("fill", l, kind, x, self.tag(base + 1 + j, l, kind)))
                        self.at[base + 1 + j, l, kind] = x
                        rows[l, kind].append(x)
                        self.blobs[l] = max(self.blobs[l], (x >> self.bits[l]) + 1)
            self.d.ask(nums("ins", key[0], len(key) - 1, *key[1:], *[x for kind in (0, 1) for l in range(self.layers) for x in rows[l, kind]]))
        elif op == "slide":
            self.d.ask(nums("evictw", key[0], len(key) - 1, *key[1:]))
            self.forget(a[1])
        found, _ = self.find(key)
        return dict(found=found, clash=self.clash(), blobs=list(self.blobs))

    def forget(self, ids):
        for i in ids:
            for l in range(self.layers):
                if l + 1 in self.sliding:
                    for kind in (0, 1):
                        self.at.pop((i, l, kind), None)

    def clash(self):
        """blocks of live positions that share an address or lost their contents"""
        keys = sorted(self.at)
        got = self.d.ask(nums("read", *[x for k in keys for x in (k[1], k[2], self.at[k])]))["b"] if keys else []
        seen, bad = {}, set()
        for k, b in zip(keys, got):
            if b != self.tag(*k) or seen.setdefault((self.what == "cpu" and k[1:], self.at[k]), k) != k:
                bad.add(k)
        return bad
