// Driver for the request service: scripts of several callers under a seeded scheduler.
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>

#include "mllm/engine/service/Service.hpp"
#include "sched.hpp"

using namespace mllm::service;
using nlohmann::json;
using std::string;
using std::vector;

static void log(const json& e) { sched::log(e.dump(-1, ' ', false, json::error_handler_t::replace).c_str()); }

struct Counting : Session {  // n answers; may throw, or make something that is no text; may end in the middle of a character
  const char* end;
  explicit Counting(const char* e) : end(e) {}
  void streamGenerate(const json& r, const std::function<void(const json&, bool)>& cb) override {
    string id = r["id"], tag = r["tag"];
    int n = r["n"], fail = r["fail"], odd = r["odd"];
    log({"begin", id});
    for (int i = 0; i < n; ++i) {
      if (i == fail) throw std::runtime_error("failed");
      if (i == odd) cb(json(17), false);
      if (i + 100 == odd) cb("", false);   // nothing yet, as for half a character
      cb(tag + std::to_string(i) + end, false);
    }
    if (fail == n) throw 5;
    cb(r.value("last", ""), true);
  }
};

static int send(const string& w) {   // s<id>:<kind>:<n>:<tag>:<fail>:<odd>
  std::istringstream in(w.substr(1));
  string id, kind, n, tag, fail, odd;
  std::getline(in, id, ':');
  std::getline(in, kind, ':');
  std::getline(in, n, ':');
  std::getline(in, tag, ':');
  std::getline(in, fail, ':');
  std::getline(in, odd, ':');
  json j = {{"id", id}, {"n", std::stoi(n)}, {"tag", tag}, {"fail", std::stoi(fail)}, {"odd", std::stoi(odd)}};
  if (kind == "number") j["model"] = 7;
  else if (kind != "none") j["model"] = kind;
  return sendRequest(j.dump());
}

static const char* BAD[] = {"", "{", "[]", "{}", "{\"id\":\"\"}", "{\"id\":3}", "17", "{\"id\":null,\"model\":\"m\"}", "\"x\"", "{\"model\":\"m\"}", "[{\"id\":\"a\"}]"};

static json got(const string& s) {
  json j = json::parse(s, nullptr, false);
  if (j.is_discarded()) return {"unreadable", s};
  json o = {{"finished", j.value("finished", json())}, {"error", j.value("error", false)}};
  o["id"] = j.value("id", "");
  if (j.contains("choices")) {
    o["text"] = j["choices"][0]["delta"]["content"];
    o["reason"] = j["choices"][0]["finish_reason"].is_null() ? json("-") : j["choices"][0]["finish_reason"];
    o["count"] = j["choices"].size();
    o["model"] = j["model"];
  }
  return o;
}

static void run(const string& line) {
  vector<string> part;
  std::istringstream in(line);
  string p;
  while (std::getline(in, p, '|')) part.push_back(p);
  std::istringstream head(part[0]);
  uint64_t seed;
  int workers;
  head >> seed >> workers;
  sched::begin(seed, sched::print);
  {
    vector<std::thread> ts;
    auto body = [&](int me, const string& script) {
      std::istringstream in(script);
      string w;
      while (in >> w) {
        if (w == "J") {
          for (auto& t : ts)
            if (t.joinable()) t.join();
        } else if (w == "Y") {
          log({"start"});
          startService(workers);
          log({"started"});
        } else if (w == "X") {
          log({"stop"});
          stopService();
          log({"stopped"});
        } else if (w[0] == 'R') {
          insertSession(w.substr(1), std::make_shared<Counting>(w == "Rb" ? "\xe4\xbd" : ""));
          log({"session", w.substr(1)});
        } else if (w[0] == 's') {
          log({"send", w.substr(1)});
          int r = send(w);
          log({"sent", w.substr(1), r});
        } else if (w[0] == 'm') {
          log({"malformed", sendRequest(BAD[std::stoi(w.substr(1))])});
        } else if (w[0] == 'g' || w[0] == 'G') {
          string id = w.substr(1);
          for (;;) {
            log({"ask", id, me});
            json r = got(getResponse(id));
            log({"got", id, me, r});
            if (w[0] == 'g' || r.is_array() || r["finished"] != false || r["id"] == "") break;
          }
        }
      }
    };
    for (size_t i = 2; i < part.size(); ++i) ts.emplace_back(body, (int)i - 1, part[i]);
    body(0, part[1]);
    for (auto& t : ts)
      if (t.joinable()) t.join();
    log({"end"});
  }
  sched::end();
  sched::print(nullptr);
}
int main() {
  string line;
  while (std::getline(std::cin, line)) {
    pid_t p = fork();
    if (!p) {
      alarm(20);
      run(line);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) std::cout << "@{\"died\":" << st << "}" << std::endl;
  }
}
