// A scenario is an explicit key=value description of one simulated run (workload, layout, swarm parameters).
// It is written verbatim into replay files.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Scenario {
  std::map<std::string, std::string> kv;
  bool has(const std::string& k) const { return kv.count(k) > 0; }
  std::string s(const std::string& k, const std::string& def = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? def : it->second;
  }
  long i(const std::string& k, long def = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? def : std::strtol(it->second.c_str(), nullptr, 10);
  }
  double d(const std::string& k, double def = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? def : std::strtod(it->second.c_str(), nullptr);
  }
  std::vector<long> iv(const std::string& k) const {
    std::vector<long> r;
    std::istringstream is(s(k));
    long v;
    while (is >> v) r.push_back(v);
    return r;
  }
  std::vector<std::string> sv(const std::string& k) const {
    std::vector<std::string> r;
    std::istringstream is(s(k));
    std::string v;
    while (is >> v) r.push_back(v);
    return r;
  }
  std::vector<double> dv(const std::string& k) const {
    std::vector<double> r;
    std::istringstream is(s(k));
    double v;
    while (is >> v) r.push_back(v);
    return r;
  }
  void set(const std::string& k, const std::string& v) { kv[k] = v; }
  void set(const std::string& k, const char* v) { kv[k] = v; }
  void set(const std::string& k, long v) { kv[k] = std::to_string(v); }
  void set(const std::string& k, int v) { kv[k] = std::to_string(v); }
  void set(const std::string& k, unsigned v) { kv[k] = std::to_string(v); }
  void set(const std::string& k, unsigned long v) { kv[k] = std::to_string(v); }
  void set(const std::string& k, bool v) { kv[k] = v ? "1" : "0"; }
  void set(const std::string& k, double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    kv[k] = b;
  }
  template <class V>
  void setv(const std::string& k, const V& v) {
    std::ostringstream os;
    os.precision(17);
    bool first = true;
    for (auto& x : v) {
      if (!first) os << ' ';
      os << x;
      first = false;
    }
    kv[k] = os.str();
  }
};
