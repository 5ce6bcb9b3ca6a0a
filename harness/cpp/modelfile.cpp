// Driver for model files: everything that may end the process happens in a child.
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/TensorStorage.hpp"
#include "mllm/core/TensorViewImpl.hpp"

using namespace mllm;
using nlohmann::json;
using V1 = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>;
using V2 = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>;

static std::string hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  return s;
}
static std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)std::stoi(s.substr(i, 2), nullptr, 16);
  return o;
}

// k: ok (with items), refused (the library ended the process in an orderly way), broken
static json inChild(const std::function<json()>& f) {
  int p[2];
  if (pipe(p)) return {{"k", "no pipe"}};
  std::cout.flush();
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    alarm(20);
    std::string s;
    try {
      s = f().dump();
    } catch (const std::exception& e) { abort(); }
    for (size_t at = 0; at < s.size();) {
      ssize_t n = ::write(p[1], s.data() + at, s.size() - at);
      if (n <= 0) _exit(3);
      at += n;
    }
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char b[65536];
  for (ssize_t n; (n = ::read(p[0], b, sizeof(b))) > 0;) s.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return json::parse(s);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return {{"k", "refused"}};
  if (WIFSIGNALED(st)) return {{"k", "broken"}, {"how", "signal " + std::to_string(WTERMSIG(st))}};
  return {{"k", "broken"}, {"how", "exit status " + std::to_string(WEXITSTATUS(st))}};
}

static json readBack(const std::string& path, int version, bool mapped) {
  auto f = version == 1 ? V1::read(path, mapped) : V2::read(path, mapped);
  json items = json::array();
  for (auto& [name, tensor] : *f) {
    auto t = f->pull(name);
    auto impl = t.impl();
    items.push_back({{"name", hex((const uint8_t*)name.data(), name.size())}, {"has", f->has(name)}, {"type", (int)impl->dtype()}, {"shape", impl->shape()},
                     {"size", impl->size()}, {"data", hex(t.ptr<uint8_t>(), impl->size())}});
  }
  if ((size_t)f->dict().size() != items.size()) return {{"k", "broken"}, {"how", "sizes differ"}};
  return {{"k", "ok"}, {"items", items}};
}

static json writeOut(const json& q) {
  auto f = ParameterFile::create(q["version"] == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2);
  for (auto& x : q["items"]) {
    auto t = Tensor::empty(x["shape"].get<std::vector<int32_t>>(), (DataTypes)x["type"].get<int>(), kCPU).alloc();
    auto data = unhex(x["data"].get<std::string>());
    if (data.size() != t.bytes()) return {{"k", "broken"}, {"how", "bytes() is " + std::to_string(t.bytes())}};
    memcpy(t.ptr<uint8_t>(), data.data(), data.size());
    t.impl()->storage()->name_ = unhex(x["label"].get<std::string>());
    f->push(unhex(x["name"].get<std::string>()), t);
  }
  if (q["version"] == 1) V1::write(f, q["path"]);
  else V2::write(f, q["path"]);
  return {{"k", "done"}};
}

int main() {
  std::string line;
  signal(SIGPIPE, SIG_IGN);
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o;
    std::string op = q["op"];
    if (op == "read") {
      o = inChild([&] { return readBack(q["path"], q["version"], q["mapped"]); });
    } else if (op == "write") {
      o = inChild([&] { return writeOut(q); });
    } else if (op == "prefixes") {  // of a file this may cut: the lengths that were taken
      o["taken"] = json::array();
      o["broken"] = json::array();
      for (auto& n : q["lengths"]) {
        if (truncate(q["path"].get<std::string>().c_str(), n.get<long>())) return 4;
        json r = inChild([&] { return readBack(q["path"], q["version"], q["mapped"]); });
        if (r["k"] == "ok") o["taken"].push_back({{"at", n}, {"items", r["items"]}});
        else if (r["k"] != "refused") o["broken"].push_back({{"at", n}, {"how", r["how"]}});
      }
    }
    std::cout << "@" << o.dump() << std::endl;
  }
}
