// Driver for symbolic expressions.
#include <iostream>
#include <map>
#include <sstream>
#include <string>

#include <nlohmann/json.hpp>
#include "mllm/compile/symbolic_expr/Eval.hpp"

using namespace mllm;
using nlohmann::json;

static json number(double v) {
  if (v != v) return "nan";
  if (v - v != 0) return v > 0 ? "inf" : "-inf";
  return v;
}
template <class F> static json guarded(F f) {
  try {
    return f();
  } catch (const std::exception& e) { return {{"error", e.what()}}; }
}
static json evaluate(SymExpr& e, const json& envs) {
  json out = json::array();
  for (auto& env : envs) {
    SymExprDict d;
    for (auto& [k, v] : env.items()) d[k] = v.get<float>();
    out.push_back({{"value", guarded([&] { return number(e.eval(d)); })}, {"int", guarded([&] { return json(e.evalAsInt(d)); })}});
  }
  return out;
}
static json look(SymExpr& e, const json& envs) {
  json o;
  o["values"] = evaluate(e, envs);
  o["static"] = e.isStatic();
  std::string s = e.str();
  o["str"] = s;
  o["again"] = guarded([&] {  // read what was printed
    SymExpr f(s);
    return json{{"values", evaluate(f, envs)}, {"static", f.isStatic()}, {"str", f.str()}};
  });
  return o;
}

int main() {
  std::string line;
  std::map<int, SymExpr> reg;
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o;
    std::string op = q["op"];
    int a = q.value("a", 0), b = q.value("b", 0), c = q.value("c", 0);
    if (op == "parse") {
      o = guarded([&] {
        SymExpr e(q["text"].get<std::string>());
        return look(e, q["envs"]);
      });
    } else if (op == "new") {
      reg.clear();
    } else {
      o = guarded([&] {
        if (op == "int") reg[c] = SymExpr((int32_t)q["v"].get<int>());
        else if (op == "fp") reg[c] = SymExpr((float)q["v"].get<double>());
        else if (op == "text") reg[c] = SymExpr(q["text"].get<std::string>());
        else if (op == "reparse") reg[c].parse(q["text"].get<std::string>());
        else if (op == "ceil") reg[c] = reg[a].ceil();
        else if (op == "floor") reg[c] = reg[a].floor();
        else if (op == "abs") reg[c] = reg[a].abs();
        else if (op == "+") reg[c] = reg[a] + reg[b];
        else if (op == "-") reg[c] = reg[a] - reg[b];
        else if (op == "*") reg[c] = reg[a] * reg[b];
        else if (op == "/") reg[c] = reg[a] / reg[b];
        else if (op == "%") reg[c] = reg[a] % reg[b];
        return look(reg[c], q["envs"]);
      });
    }
    std::cout << "@" << o.dump(-1, ' ', false, json::error_handler_t::replace) << std::endl;
  }
}
