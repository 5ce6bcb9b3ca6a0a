// Driver for the memory manager and its buddy pool; with -DSCHED also for several threads at once.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>

#include "mllm/engine/MemoryManager.hpp"
#ifdef SCHED
#include "sched.hpp"
#endif

using namespace mllm;
using std::string;
using std::vector;

struct Arena : Allocator {  // hands out memory of its own and remembers it
  vector<std::pair<char*, size_t>> segs;
  std::map<char*, size_t> direct;
  std::mutex mu;
  long freed = 0;
  static char* get(size_t n) {
    void* p = mmap(nullptr, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return (char*)(((size_t)p + 4095) & ~4095ul);
  }
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override {
    s->ptr_ = ::malloc(s->size_ ? s->size_ : 1);
    std::lock_guard<std::mutex> l(mu);
    direct[(char*)s->ptr_] = s->size_;
    return true;
  }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override {
    std::lock_guard<std::mutex> l(mu);
    direct.erase((char*)s->ptr_);
    ::free(s->ptr_);
  }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t) override {
    *p = get(cap);
    std::lock_guard<std::mutex> l(mu);
    segs.push_back({(char*)*p, cap});
    return true;
  }
  void generalFree(void*) override { ++freed; }
  size_t allocSize(Storage* s) override { return (s->size_ + 63) & ~63ul; }
  size_t allocSize(const Storage::ptr_t& s) override { return allocSize(s.get()); }
  size_t alignSize() const override { return 64; }
};

struct Block {
  std::shared_ptr<Storage> s;
  unsigned char tag;
};

struct Subject {
  std::shared_ptr<Arena> a = std::make_shared<Arena>();
  std::unique_ptr<MemoryManager> m;
  std::unique_ptr<BuddyMemPool> pool;   // the pool alone, for its cache list
  size_t unit = 1;
  std::map<int, Block> live;
  void alloc(const std::shared_ptr<Storage>& s) { pool ? pool->alloc(s) : m->alloc(s); }
  void free(const std::shared_ptr<Storage>& s) { pool ? pool->free(s) : m->free(s); }
  string where(Storage* s) {
    auto p = (char*)s->ptr_;
    std::lock_guard<std::mutex> l(a->mu);
    if (a->direct.count(p)) return "\"seg\":0,\"off\":0";
    for (size_t i = 0; i < a->segs.size(); ++i) {
      auto [b, n] = a->segs[i];
      if (p >= b && p < b + n) {
        long off = (p - b) % unit ? -1 : (long)((p - b) / unit);
        return "\"seg\":" + std::to_string(i + 1) + ",\"off\":" + std::to_string(off);
      }
    }
    return "\"seg\":-1,\"off\":-1";
  }
  string segs() {
    string o = "[";
    std::lock_guard<std::mutex> l(a->mu);
    for (auto& [b, n] : a->segs) o += (o.size() > 1 ? "," : "") + std::to_string(n / unit);
    return o + "]";
  }
  string spoilt() {  // live blocks whose contents are not what was written
    string o = "[";
    for (auto& [h, b] : live) {
      auto p = (unsigned char*)b.s->ptr_;
      for (size_t i = 0; i < b.s->size_; ++i)
        if (p[i] != b.tag) {
          o += (o.size() > 1 ? "," : "") + std::to_string(h);
          break;
        }
    }
    return o + "]";
  }
};

static uint32_t uuid = 1;
static std::shared_ptr<Storage> storage(size_t n) {
  auto s = std::make_shared<Storage>();
  s->size_ = n;
  s->custom_32bit_uuid_ = uuid++;
  return s;
}

static void make(Subject& s, std::istream& in) {
  size_t first, min, threshold;
  int buddy, cache;
  in >> first >> min >> threshold >> buddy >> cache;
  s.unit = 1ul << min;
  BuddyMemPoolOptions o;
  o.buddy_first_segment_cap = 1ul << first;
  o.buddy_min_order = min;
  o.buddy_max_order = first;
  size_t c;
  for (int i = 0; i < cache; ++i) {
    in >> c;
    o.cache_size_set.insert(c);
    o.cache_small_obj_enabled = true;
  }
  if (buddy == 2) {
    o.cache_small_obj_enabled = true;
    s.pool = std::make_unique<BuddyMemPool>(o, s.a);
    return;
  }
  s.m = std::make_unique<MemoryManager>();
  s.m->registerAllocator(kCPU, s.a, {.really_large_tensor_threshold = threshold, .using_buddy_mem_pool = buddy == 1, .buddy_mem_pool_options = o});
}

#ifndef SCHED
int main() {
  auto s = std::make_unique<Subject>();
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    string op;
    in >> op;
    std::ostringstream out;
    if (op == "new") {
      s = std::make_unique<Subject>();
      make(*s, in);
    } else if (op == "alloc") {
      int h;
      size_t n;
      in >> h >> n;
      auto b = storage(n);
      s->alloc(b);
      s->live[h] = {b, (unsigned char)(h * 37 + n % 11 + 1)};
      memset(b->ptr_, s->live[h].tag, n);
      out << s->where(b.get()) << ",";
    } else if (op == "free") {
      int h;
      in >> h;
      s->free(s->live[h].s);
      s->live.erase(h);
    } else if (op == "list") {
      std::unordered_set<size_t> l;
      size_t c;
      while (in >> c) l.insert(c);
      s->pool->updateCacheSizeList(l);
    } else if (op == "drop") {
      s->m.reset();
      s->pool.reset();
      std::cout << "@{\"freed\":" << s->a->freed << ",\"segs\":" << s->a->segs.size() << "}" << std::endl;
      continue;
    }
    std::cout << "@{" << out.str() << "\"segs\":" << s->segs() << ",\"spoilt\":" << s->spoilt() << "}" << std::endl;
  }
}
#else
// run SEED | new ... | script of thread 1 | script of thread 2 | ...    script: a<h>:<size> f<h>
static void log(const string& e) { sched::log(e.c_str()); }
static void run(const string& line) {
  vector<string> part;
  std::istringstream in(line);
  string p;
  while (std::getline(in, p, '|')) part.push_back(p);
  uint64_t seed = std::stoull(part[0]);
  Subject s;
  std::istringstream cfg(part[1]);
  make(s, cfg);
  auto body = [&](int me, const string& script) {
    std::istringstream in(script);
    string w;
    std::map<int, Block> mine;
    while (in >> w) {
      int h = std::stoi(w.substr(1));
      if (w[0] == 'a') {
        size_t n = std::stoul(w.substr(w.find(':') + 1));
        auto b = storage(n);
        s.alloc(b);
        log("[\"alloc\"," + std::to_string(h) + "," + std::to_string(n) + ",{" + s.where(b.get()) + "}," + s.segs() + "]");
        mine[h] = {b, (unsigned char)(h * 37 + 1)};
        memset(b->ptr_, mine[h].tag, n);
      } else {
        auto& b = mine[h];
        int ok = 1;
        for (size_t i = 0; i < b.s->size_; ++i) ok = ok && ((unsigned char*)b.s->ptr_)[i] == b.tag;
        log("[\"free\"," + std::to_string(h) + "," + std::to_string(ok) + "]");
        s.free(b.s);
        mine.erase(h);
      }
    }
  };
  sched::begin(seed, sched::print);
  {
    vector<std::thread> ts;
    for (size_t i = 3; i < part.size(); ++i) ts.emplace_back(body, (int)i, part[i]);
    for (auto& t : ts) t.join();
  }
  sched::end();
  log("[\"quiet\"]");
  body(0, part[2]);      // and then one thread alone
  sched::print(nullptr);
}
int main() {
  string line;
  while (std::getline(std::cin, line)) {
    pid_t p = fork();
    if (!p) {
      alarm(20);
      run(line);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) std::cout << "@{\"died\":" << st << "}" << std::endl;
  }
}
#endif
