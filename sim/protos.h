#pragma once
#include <fstream>
#include <map>
#include <string>
// The declarations of a module's functions as the compiler saw them, one letter per argument: p/c pointer to something
// writable/constant, L/I integer of 64 bits/less, ? unknown; "void"; "-" for a static function (vfbuild.py).
struct Protos {
  std::map<std::string, std::string> p;
  void load(const std::string &module) {
    std::ifstream f(module.substr(0, module.rfind('/')) + "/protos");
    for (std::string n, s; f >> n >> s;) p[n] = s;
  }
  bool fits(const std::string &fn, const std::string &want) const {
    auto a = p.find(fn);
    if (a == p.end() || want == a->second) return true;
    if (a->second.size() != want.size()) return false;
    for (size_t i = 0; i < want.size(); i++) {
      char x = a->second[i], w = want[i];
      if (x == '?') continue;
      bool ptr = x == 'p' || x == 'c', wptr = w == 'P' || w == 'c' || w == 'S';
      if (ptr != wptr || x == '-' || (w == 'P' && x == 'c')) return false;
    }
    return true;
  }
  char width(const std::string &fn, size_t i, char def) const {
    auto a = p.find(fn);
    return a != p.end() && i < a->second.size() && (a->second[i] == 'L' || a->second[i] == 'I') ? a->second[i] : def;
  }
};
