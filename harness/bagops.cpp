// Command driver with the bag converter added (built against a stand-in for the mcap library).
#include <chrono>
#include <memory>
#define HAVE_MORE
#include "rosops.cpp"
#include "mcap_converter.hpp"
#include <mcap/writer.hpp>

std::string runMore(const std::string& op, const Args& a, bool& known) {
  known = true;
  auto G = [&](const char* k) -> std::string { auto it = a.find(k); return it == a.end() ? "" : it->second; };
  if (op != "bag") { known = false; return ""; }
  std::unique_ptr<McapConverter> conv = std::make_unique<McapConverter>();
  std::string res;
  for (auto& step : split(G("steps"), '|')) {
    auto at = step.find(':');
    std::string kind = step.substr(0, at), arg = at == std::string::npos ? "" : step.substr(at + 1);
    std::string r;
    try {
      if (kind == "new") { conv = std::make_unique<McapConverter>(); r = "ok"; }
      else if (kind == "open") {
        std::map<std::string, std::string> s;
        for (auto& [t, n] : conv->open(strOf(arg))) s[t] = n;
        r = "ok";
        for (auto& [t, n] : s) r += ";" + sh(t) + ":" + sh(n);
      } else if (kind == "prof") { conv->addProfile(strOf(arg)); r = "ok"; }
      else if (kind == "getprof") {
        r = "ok";
        for (auto& [n, v] : conv->getProfile()) { uint32_t b; memcpy(&b, &v, 4); char t[16]; snprintf(t, 16, "%08x", b); r += ";" + sh(n) + ":" + t; }
      } else if (kind == "enc" || kind == "dec") {
        auto p = split(arg, ',');
        mcap::stub::writesLeft() = p[4] == "-" ? -1 : std::stol(p[4]);
        auto comp = (CompressionOption)std::stoi(p[2]);
        std::optional<float> def;
        if (p[1] != "-") def = bitsF(p[1]);
        if (kind == "enc") conv->encodePointClouds(strOf(p[0]), def, comp, p[3] == "1"); else conv->decodePointClouds(strOf(p[0]), comp);
        r = "ok";
      } else { fprintf(stderr, "unknown step %s\n", kind.c_str()); exit(97); }
    } catch (const std::exception& e) { r = std::string("threw;") + sh(e.what()); }
    mcap::stub::writesLeft() = -1;
    res += (res.empty() ? "" : "|") + r;
  }
  return "\"ok\":true,\"steps\":\"" + res + "\"";
}
