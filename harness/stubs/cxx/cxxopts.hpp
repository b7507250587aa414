// Stand-in for cxxopts: the part of its interface the tools use, with its parsing rules
// (-f x, -fx, --file x, --file=x, grouped short flags, "--" ends the options, defaults don't count).
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace cxxopts {
#define CXXOPTS__VERSION_MAJOR 3
namespace exceptions {
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct specification : exception { using exception::exception; };
struct parsing : exception { using exception::exception; };
struct no_such_option : parsing { using parsing::parsing; };
struct missing_argument : parsing { using parsing::parsing; };
struct incorrect_argument_type : parsing { using parsing::parsing; };
}  // namespace exceptions

struct Value {
  bool flag = false, has_default = false;
  std::string def;
  void (*check)(const std::string&) = nullptr;
  std::shared_ptr<Value> default_value(const std::string& d) { has_default = true; def = d; return self.lock(); }
  std::weak_ptr<Value> self;
};
template <typename T> T convert(const std::string& s) {
  if constexpr (std::is_same_v<T, std::string>) {
    return s;
  } else {
    std::istringstream in(s);
    T t;
    if (!(in >> t) || in.peek() != std::istringstream::traits_type::eof()) throw exceptions::parsing("Argument '" + s + "' failed to parse");
    return t;
  }
}
template <typename T> std::shared_ptr<Value> value() {
  auto v = std::make_shared<Value>();
  v->self = v;
  v->check = [](const std::string& s) { convert<T>(s); };
  return v;
}

class OptionValue {
 public:
  size_t n = 0;
  bool set = false;
  std::string text;
  size_t count() const noexcept { return n; }
  bool has_default() const noexcept { return set && !n; }
  template <typename T> T as() const {
    if (!set) throw exceptions::exception("No value");
    return convert<T>(text);
  }
};
class ParseResult {
 public:
  std::map<std::string, std::shared_ptr<OptionValue>> v;
  size_t count(const std::string& n) const { auto i = v.find(n); return i == v.end() ? 0 : i->second->n; }
  bool contains(const std::string& n) const { return count(n) > 0; }
  std::vector<std::string> rest;
  const std::vector<std::string>& unmatched() const { return rest; }
  template <typename T> std::optional<T> as_optional(const std::string& n) const { auto i = v.find(n); return i == v.end() || !i->second->set ? std::nullopt : std::optional<T>(i->second->as<T>()); }
  const OptionValue& operator[](const std::string& n) const {
    auto i = v.find(n);
    if (i == v.end()) throw exceptions::exception("Option '" + n + "' not present");
    return *i->second;
  }
};
class Options {
  struct Opt { std::string s, l; std::shared_ptr<Value> val; };
  std::vector<Opt> opts;
  std::vector<std::string> positions;
  std::string name, about;

 public:
  Options(std::string n, std::string d = "") : name(n), about(d) {}
  struct Adder {
    Options& o;
    Adder& operator()(const std::string& names, const std::string&, std::shared_ptr<Value> v = nullptr) {
      if (!v) { v = std::make_shared<Value>(); v->flag = true; }
      auto c = names.find(',');
      Opt x;
      x.val = v;
      if (c == std::string::npos) (names.size() == 1 ? x.s : x.l) = names; else { x.s = names.substr(0, c); x.l = names.substr(c + 1); }
      o.opts.push_back(x);
      return *this;
    }
  };
  Adder add_options(std::string = "") { return Adder{*this}; }
  void parse_positional(std::vector<std::string> names) { positions = std::move(names); }
  void parse_positional(std::string one) { positions = {std::move(one)}; }
  void parse_positional(std::initializer_list<std::string> names) { positions = names; }
  Options& positional_help(std::string) { return *this; }
  Options& custom_help(std::string) { return *this; }
  Options& show_positional_help() { return *this; }
  Options& set_width(size_t) { return *this; }
  const std::string& program() const { return name; }
  std::string help(const std::vector<std::string>& = {}, bool = false) const { return about + "\nUsage:\n  " + name + " [OPTION...]\n"; }
  ParseResult parse(int argc, const char* const* argv) {
    ParseResult r;
    std::map<std::string, std::pair<std::shared_ptr<OptionValue>, std::shared_ptr<Value>>> by;
    for (auto& o : opts) {
      auto ov = std::make_shared<OptionValue>();
      for (auto& n : {o.s, o.l}) if (!n.empty()) { by[n] = {ov, o.val}; r.v[n] = ov; }
    }
    auto give = [&](const std::string& n, const std::string* t) {
      auto& [ov, val] = by.at(n);
      std::string text = t ? *t : "true";
      if (val->check) val->check(text);
      ov->n++;
      ov->set = true;
      ov->text = text;
    };
    auto need = [&](const std::string& n) -> std::shared_ptr<Value> {
      auto i = by.find(n);
      if (i == by.end()) throw exceptions::parsing("Option '" + n + "' does not exist");
      return i->second.second;
    };
    auto place = [&](const std::string& a) {  // the first positional option without a value takes it
      for (auto& n : positions) if (!by.at(n).first->n) return give(n, &a);
    };
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--") {
        while (++i < argc) place(argv[i]);
        break;
      }
      if (a.size() < 2 || a[0] != '-') { place(a); continue; }
      if (a[1] == '-') {
        auto eq = a.find('=');
        std::string n = a.substr(2, eq == std::string::npos ? eq : eq - 2);
        auto v = need(n);
        if (eq != std::string::npos) { std::string t = a.substr(eq + 1); give(n, &t); }
        else if (v->flag) give(n, nullptr);
        else if (i + 1 < argc) { std::string t = argv[++i]; give(n, &t); }
        else throw exceptions::parsing("Option '" + n + "' is missing an argument");
      } else {
        for (size_t q = 1; q < a.size(); q++) {
          std::string n(1, a[q]);
          auto v = need(n);
          if (v->flag) { give(n, nullptr); continue; }
          std::string t;
          if (q + 1 < a.size()) t = a.substr(q + 1);
          else if (i + 1 < argc) t = argv[++i];
          else throw exceptions::parsing("Option '" + n + "' is missing an argument");
          give(n, &t);
          break;
        }
      }
    }
    for (auto& [n, p] : by)
      if (!p.first->set && p.second->has_default) { p.first->set = true; p.first->text = p.second->def; }
    return r;
  }
};
}  // namespace cxxopts
