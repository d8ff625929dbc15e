#include "ref.hpp"
#include <sstream>
namespace sim {
std::string check_printed_proof(const std::string& text, const std::set<std::set<int>>& inputs, int any_size) {
  std::map<std::string, std::set<int>> der;
  std::istringstream ss(text); std::string line; bool empty = false;
  auto show = [](const std::set<int>& c) { std::string s = "("; for (int l : c) s += std::to_string(l) + " "; if (s.size() > 1) s.pop_back(); return s + ")"; };
  while (std::getline(ss, line)) {
    size_t colon = line.find(": ("), close = line.find(") [");
    if (colon == std::string::npos || close == std::string::npos) continue;
    std::string name = line.substr(0, colon); std::set<int> c;
    { std::istringstream cs(line.substr(colon + 3, close - colon - 3)); std::string t; while (cs >> t) { if (t[0] == '~') c.insert(-atoi(t.c_str() + 1)); else c.insert(atoi(t.c_str())); } }
    std::string just = line.substr(close + 3);
    SIM_COUNT("proof_steps");
    if (just.rfind("input", 0) == 0) {
      if (!inputs.count(c) && any_size != 0 && (int) c.size() != any_size) return "proof:foreign-input printed proof uses the input " + show(c) + " which was never given";
    } else {
      std::string a, b; size_t sp = just.find(' '), cm = just.find(", "), en = just.find(']');
      if (sp == std::string::npos || cm == std::string::npos || en == std::string::npos) continue;
      a = just.substr(sp + 1, cm - sp - 1); b = just.substr(cm + 2, en - cm - 2);
      if (!der.count(a) || !der.count(b)) return "proof:dangling printed proof step " + name + " refers to a step not yet derived";
      bool good = false;
      for (int p : der[a]) if (der[b].count(-p)) {
        std::set<int> r; for (int x : der[a]) if (x != p) r.insert(x);
        for (int x : der[b]) if (x != -p) r.insert(x);
        if (r == c) { good = true; break; }
      }
      if (!good) return "proof:bad-step printed proof step " + name + " is not a resolvent of its premises";
    }
    der[name] = c; if (c.empty()) empty = true;
  }
  if (!empty) return "proof:no-empty-clause the printed proof does not derive the empty clause";
  return "";
}
}
