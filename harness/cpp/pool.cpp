// Driver for the thread pool: scripts of several callers under a seeded scheduler.
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>

#include "mllm/engine/HpcThreadPool.hpp"
#include "sched.hpp"

using namespace mllm;
using std::string;
using std::vector;

static void log(const string& e) { sched::log(e.c_str()); }

// SEED THREADS | script of the main caller | script of caller 1 | ...
// A activate, D deactivate, I idle, W wakeup, S acquire a slot, R release it, Pid:start:end:step, J join the others
static void run(const string& line) {
  vector<string> part;
  std::istringstream in(line);
  string p;
  while (std::getline(in, p, '|')) part.push_back(p);
  std::istringstream head(part[0]);
  uint64_t seed;
  int threads;
  head >> seed >> threads;
  sched::begin(seed, sched::print);
  {
    auto pool = std::make_unique<HpcThreadPool>(threads);
    vector<std::thread> ts;
    auto join = [&] {
      for (auto& t : ts)
        if (t.joinable()) t.join();
    };
    auto body = [&](int me, const string& script) {
      std::istringstream in(script);
      string w;
      int slot = -1;
      while (in >> w) {
        if (w == "A") pool->activate();
        else if (w == "D") pool->deactivate();
        else if (w == "I") pool->idle();
        else if (w == "W") pool->wakeup();
        else if (w == "J") join();
        else if (w == "S") slot = pool->acquireTaskSlot();
        else if (w == "R") {
          pool->releaseTaskSlot(slot);
          slot = -1;
        } else if (w[0] == 'P') {
          int id, a, b, c;
          sscanf(w.c_str(), "P%d:%d:%d:%d", &id, &a, &b, &c);
          log("[\"push\"," + std::to_string(id) + "," + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]");
          auto keep = std::make_shared<int>(id);
          pool->push({.func = [id, keep](int i) {
                        log("[\"run\"," + std::to_string(id) + "," + std::to_string(i) + "]");
                        sched::point();
                        log("[\"end\"," + std::to_string(id) + "," + std::to_string(i) + "]");
                      },
                      .start = a, .end = b, .step = c},
                     slot);
          log("[\"done\"," + std::to_string(id) + "]");
        }
        log("[\"op\",\"" + w.substr(0, 1) + "\"]");
      }
    };
    for (size_t i = 2; i < part.size(); ++i) ts.emplace_back(body, (int)i - 1, part[i]);
    body(0, part[1]);
    join();
    pool.reset();
    log("[\"destroyed\"]");
  }
  sched::end();
  sched::print(nullptr);
}
int main() {
  string line;
  while (std::getline(std::cin, line)) {
    pid_t p = fork();
    if (!p) {
      alarm(20);
      run(line);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) std::cout << "@{\"died\":" << st << "}" << std::endl;
  }
}
