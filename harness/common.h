// Shared driver plumbing: read an ndjson script, answer each event in order.
// Every answered event is flushed at once, so that the event on which the code
// under test crashes or hangs is known to the runner.
#pragma once
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

inline std::string Text(const json& codes) {
  std::string s;
  for (const auto& c : codes) s.push_back(static_cast<char>(c.get<int>()));
  return s;
}
inline json Codes(const std::string& s) {
  json a = json::array();
  for (unsigned char c : s) a.push_back(int(c));
  return a;
}
inline json Codes(const std::vector<std::string>& v) {
  json a = json::array();
  for (const std::string& s : v) a.push_back(Codes(s));
  return a;
}

// The driver supplies a handler which extends the event with its observations.
inline int RunScript(int argc, char** argv,
                     const std::function<void(json&)>& handle) {
  if (argc < 3) return 77;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    json ev;
    try {
      ev = json::parse(line);
    } catch (const std::exception& e) {
      std::cerr << e.what();
      return 77;
    }
    try {
      handle(ev);
    } catch (const json::exception& e) {
      std::cerr << "driver: " << e.what() << " on " << line;
      return 77;
    }
    out << ev.dump() << '\n' << std::flush;
  }
  return 0;
}
