// Several threads use one parameter set at the same time.
#include "common.h"
#include <atomic>
#include <thread>
#include "common/ParameterSet.h"
using namespace dp3::common;

static json Content(const ParameterSet& s) {
  json a = json::array();
  for (const auto& kv : s)
    a.push_back(json::array({Codes(kv.first), Codes(kv.second.get())}));
  return a;
}

struct Op {
  std::string op, k, v;
  std::string res, out;
  std::vector<std::string> list;
};

static void Do(ParameterSet s, Op& o) {
  o.res = "ok";
  try {
    if (o.op == "add") s.add(o.k, o.v);
    else if (o.op == "replace") s.replace(o.k, o.v);
    else if (o.op == "remove") s.remove(o.k);
    else if (o.op == "get") o.out = s.getString(o.k);
    else if (o.op == "getd") o.out = s.getString(o.k, o.v);
    else if (o.op == "has") o.res = s.isDefined(o.k) ? "yes" : "no";
    else if (o.op == "vec") o.list = s.getStringVector(o.k, std::vector<std::string>{o.v});
    else if (o.op == "self") s.adoptCollection(s, o.v);
    else if (o.op == "args") s.adoptArguments({o.k + "=" + o.v});
    else if (o.op == "textadd") s.adoptBuffer(o.k + "=" + o.v + "\n");
    else if (o.op == "subtract") s.subtractSubset(o.k);
    else if (o.op == "subset") {
      const ParameterSet t = s.makeSubset(o.k, o.v);
      for (const auto& kv : t) o.list.push_back(kv.first);
    } else if (o.op == "unused") {
      o.list = s.unusedKeys();
    } else if (o.op == "write") {
      s.writeBuffer(o.out);
    } else {
      o.res = "?";
    }
  } catch (const std::runtime_error&) {
    o.res = "err";
  }
}

static void Handle(json& ev) {
  if (ev["op"] == "new") return;
  ParameterSet s(ev["nc"].get<bool>());
  for (const auto& kv : ev["pre"]) s.add(Text(kv[0]), Text(kv[1]));
  std::vector<std::vector<Op>> ops;
  for (const auto& th : ev["threads"]) {
    ops.emplace_back();
    for (const auto& o : th) ops.back().push_back(Op{o["op"], Text(o["k"]), Text(o["v"])});
  }
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  const int n = ops.size();
  for (auto& list : ops)
    ts.emplace_back([&ready, &list, n, s] {
      ++ready;
      while (ready < n) {}
      for (Op& o : list) Do(s, o);
    });
  for (auto& t : ts) t.join();
  for (size_t t = 0; t < ops.size(); ++t)
    for (size_t i = 0; i < ops[t].size(); ++i) {
      json& o = ev["threads"][t][i];
      o["res"] = ops[t][i].res;
      o["out"] = Codes(ops[t][i].out);
      o["list"] = Codes(ops[t][i].list);
    }
  ev["all"] = Content(s);
  ev["unused"] = Codes(s.unusedKeys());
}
int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
