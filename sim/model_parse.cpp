// Reads the part of the configuration language the reference model covers.
#include "model.h"
#include "gen.h"
#include <algorithm>
#include <sstream>

namespace model {
namespace {

struct Unsupported { };

struct Logical { int id; const char* name; int left, right; };
const Logical logicals[] = {
  { 0xF801, "Shift", 42, 54 }, { 0xF802, "Control", 29, 97 },
  { 0xF803, "Alt", 56, 100 }, { 0xF804, "Meta", 125, 126 },
};

std::map<std::string, int> aliases;

int key_of(const std::string& n) {
  if (auto it = aliases.find(n); it != aliases.end()) return it->second;
  if (n == "Any") return ANY;
  if (n == "ContextActive") return CTXACTIVE;
  if (n.rfind("Virtual", 0) == 0) return VIRT + atoi(n.c_str() + 7);
  for (auto& l : logicals)
    if (n == l.name) return l.id;
  auto c = key_code(n);
  if (c <= 0)
    throw Unsupported();
  return c;
}

struct Lexer {
  std::string t;
  size_t p = 0;
  void space() { while (p < t.size() && t[p] == ' ') ++p; }
  bool done() { space(); return p >= t.size(); }
  bool skip(char c) { space(); if (p < t.size() && t[p] == c) { ++p; return true; } return false; }
  std::string word() {
    space();
    auto b = p;
    while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p;
    if (p == b) throw Unsupported();
    return t.substr(b, p - b);
  }
};

bool is_time(const std::string& w) {
  return w.size() > 2 && isdigit((unsigned char)w[0]) && w.substr(w.size() - 2) == "ms";
}

void parse_in(Lexer& l, std::vector<In>& out, bool nested) {
  for (;;) {
    if (l.done()) {
      if (nested) throw Unsupported();
      return;
    }
    if (nested && l.skip('}'))
      return;
    if (l.skip('!')) {
      auto w = l.word();
      if (is_time(w)) throw Unsupported();
      auto k = key_of(w);
      // the release of a key pressed right before, otherwise a condition
      if (!out.empty() && out.back().t == In::FreeUp && out.back().key == k)
        out.back().t = In::Up;
      else if (std::any_of(out.begin(), out.end(), [&](const In& i) { return i.t == In::Down && i.key == k; }))
        out.push_back({ In::Up, k, {} });
      else
        out.push_back({ In::Not, k, {} });
      continue;
    }
    std::vector<int> keys;
    if (l.skip('(')) {
      while (!l.skip(')'))
        keys.push_back(key_of(l.word()));
      out.push_back({ In::Chord, keys.back(), keys });
    }
    else {
      auto w = l.word();
      if (is_time(w)) throw Unsupported();
      keys.push_back(key_of(w));
      out.push_back({ In::Down, keys[0], {} });
    }
    if (l.skip('{'))
      parse_in(l, out, true);
    for (auto k : keys)
      out.push_back({ In::FreeUp, k, {} });
  }
}

struct OutParser {
  Config& conf;
  std::vector<Out> out;
  bool group = false;
  void parse(Lexer& l, bool nested) {
    for (;;) {
      if (l.done()) {
        if (nested) throw Unsupported();
        return;
      }
      if (nested && l.skip('}'))
        return;
      if (l.skip('^')) { out.push_back({ Out::OnRelease, NONE }); continue; }
      if (l.skip('$')) {
        auto e = l.t.find(')', l.p);
        if (e == std::string::npos) throw Unsupported();
        out.push_back({ Out::Down, ACTION + (int)conf.actions.size() });
        conf.actions.push_back(l.t.substr(l.p + 1, e - l.p - 1));
        l.p = e + 1;
        continue;
      }
      if (l.skip('!')) { out.push_back({ Out::Not, key_of(l.word()) }); continue; }
      std::vector<int> keys;
      if (l.skip('(')) {
        while (!l.skip(')'))
          keys.push_back(key_of(l.word()));
      }
      else {
        auto w = l.word();
        if (is_time(w)) { out.push_back({ Out::Delay, atoi(w.c_str()) }); continue; }
        keys.push_back(key_of(w));
      }
      for (auto k : keys)
        out.push_back({ Out::Down, k });
      if (l.skip('{')) {
        group = true;
        parse(l, true);
        std::reverse(keys.begin(), keys.end());
      }
      for (auto k : keys)
        out.push_back({ Out::Up, k });
    }
  }
};

std::vector<Out> parse_out(Config& c, const std::string& text) {
  Lexer l{ text };
  OutParser p{ c, {} };
  p.parse(l, false);
  // keys pressed together stay pressed until the trigger is released
  auto& o = p.out;
  auto up = false, once = !p.group;
  for (auto& e : o) {
    if (e.t == Out::Up) up = true;
    if ((e.t == Out::Down || e.t == Out::Delay) && up) once = false;
  }
  if (once)
    while (!o.empty() && o.back().t == Out::Up)
      o.pop_back();
  return o;
}

void replace(std::vector<Out>& v, int from, int to) { for (auto& o : v) if (o.key == from && o.t != Out::Delay) o.key = to; }

// a condition on both keys becomes one condition for each
void split_not(std::vector<Out>& v, const Logical& l) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].t == Out::Not && v[i].key == l.id) {
      v[i].key = l.left;
      v.insert(v.begin() + (long)i + 1, { Out::Not, l.right });
    }
}

void expand(Context& c, const Logical& l) {
  std::vector<Mapping> r;
  for (auto m : c.maps) {
    for (size_t i = 0; i < m.in.size(); ++i)
      if (m.in[i].t == In::Not && m.in[i].key == l.id) {
        m.in[i].key = l.left;
        m.in.insert(m.in.begin() + (long)i + 1, { In::Not, l.right, {} });
      }
    split_not(m.out, l);
    auto found = false;
    for (auto& i : m.in)
      found = found || i.key == l.id || std::find(i.keys.begin(), i.keys.end(), l.id) != i.keys.end();
    for (auto side : { l.left, l.right }) {
      auto n = m;
      for (auto& i : n.in) {
        if (i.key == l.id) i.key = side;
        std::replace(i.keys.begin(), i.keys.end(), l.id, side);
      }
      replace(n.out, l.id, found ? side : l.left);
      r.push_back(n);
      if (!found)
        break;
    }
  }
  c.maps = r;
  for (auto& [k, o] : c.commands) {
    split_not(o, l);
    replace(o, l.id, l.left);
  }
}

}  // namespace

bool parse_config(const std::string& text, Config* conf) try {
  *conf = { };
  aliases.clear();
  conf->stages.emplace_back();
  conf->stages.back().contexts.push_back({ { Cond{ } }, { }, { } });
  auto after_block = false;
  std::istringstream in(text);
  std::string line;
  std::vector<int> forwarded;
  auto command_id = [](const std::string& w) {
    return w.rfind("cmd", 0) == 0 ? atoi(w.c_str() + 3) : -1;
  };
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') {
      after_block = false;
      continue;
    }
    if (line[0] == '@') {
      // directives without an influence on mappings
      if (line.rfind("@allow-context-commands", 0) == 0 || line.rfind("@grab-device", 0) == 0 || line.rfind("@skip-device", 0) == 0)
        continue;
      throw Unsupported();
    }
    if (line == "[stage]") {
      conf->stages.emplace_back();
      conf->stages.back().contexts.push_back({ { Cond{ } }, { }, { } });
      after_block = false;
      continue;
    }
    if (line[0] == '[') {
      // consecutive blocks share mappings
      if (!after_block) conf->stages.back().contexts.emplace_back();
      after_block = true;
      conf->stages.back().contexts.back().conds.emplace_back();
      auto& c = conf->stages.back().contexts.back().conds.back();
      if (line == "[default]")
        continue;
      c.is_default = false;
      Lexer l{ line, 1 };
      while (!l.skip(']')) {
        l.skip(',');
        auto name = l.word();
        if (l.t.compare(l.p, 3, "-id") == 0) { name += "-id"; l.p += 3; }
        auto inv = l.skip('!');
        if (!l.skip('=')) throw Unsupported();
        l.space();
        auto q = l.t[l.p++];
        auto e = l.t.find(q, l.p);
        if ((q != '"' && q != '\'' && q != '/') || e == std::string::npos) throw Unsupported();
        auto v = l.t.substr(l.p, e - l.p);
        l.p = e + 1;
        if (q == '/') {
          v = "/" + v + "/";
          if (l.p < l.t.size() && l.t[l.p] == 'i') { v += 'i'; ++l.p; }
        }
        if (name == "system") { c.never = c.never || (v != "Linux" && v != "linux") != inv; continue; }
        if (name == "device-id") { c.device_id = v; c.device_id_not = inv; continue; }
        if (name == "title") { c.title = v; c.title_not = inv; continue; }
        if (name == "class") { c.cls = v; c.cls_not = inv; continue; }
        if (name == "path") { c.path = v; c.path_not = inv; continue; }
        if (name == "device") { c.device = v; c.device_not = inv; continue; }
        if (name != "modifier") throw Unsupported();
        c.modifier_not = inv;
        Lexer m{ v };
        while (!m.done()) {
          auto no = m.skip('!');
          auto k = key_of(m.word());
          for (auto& x : c.modifier) if (x.first == k) throw Unsupported();
          c.modifier.push_back({ k, !no });
        }
      }
      continue;
    }
    after_block = false;
    auto sep = line.find(" >> ");
    if (sep == std::string::npos) {
      if (auto eq = line.find(" = "); eq != std::string::npos && line.find('[') == std::string::npos) {
        // only of single keys
        auto key = key_of(line.substr(eq + 3));
        aliases[line.substr(0, eq)] = key;
        if (is_virtual(key)) conf->aliases[line.substr(0, eq)] = key;
        continue;
      }
      if (line.size() >= 3 && line.substr(line.size() - 3) == " >>") sep = line.size() - 3;
      else throw Unsupported();
    }
    auto lhs = line.substr(0, sep), rhs = sep + 4 <= line.size() ? line.substr(sep + 4) : std::string();
    auto& ctx = conf->stages.back().contexts.back();
    if (auto id = command_id(lhs); id >= 0) {
      ctx.commands[id] = parse_out(*conf, rhs);
      continue;
    }
    Mapping m;
    Lexer l{ lhs };
    parse_in(l, m.in, false);
    if (m.in.size() == 2 && m.in[0].key == CTXACTIVE)
      m.in.pop_back();
    if (auto id = command_id(rhs); id >= 0) m.command = id;
    else m.out = parse_out(*conf, rhs);
    ctx.maps.push_back(m);
  }
  for (auto& s : conf->stages)
    for (auto i = 3; i >= 0; --i) {
      auto& l = logicals[i];
      for (auto& c : s.contexts)
        expand(c, l);
      for (auto& c : s.contexts)
        for (auto& cond : c.conds)
        for (size_t k = 0; k < cond.modifier.size(); ++k)
          if (cond.modifier[k].first == l.id && !cond.modifier[k].second) {
            cond.modifier[k].first = l.left;
            cond.modifier.insert(cond.modifier.begin() + (long)k + 1, { l.right, false });
          }
    }
  // whether a stage without mappings exists is only noticed with doubled releases
  for (auto& s : conf->stages)
    if (conf->stages.size() > 1 && std::all_of(s.contexts.begin(), s.contexts.end(), [](const Context& c) {
          return c.maps.empty() || std::all_of(c.conds.begin(), c.conds.end(), [](const Cond& d) { return d.never; }); }))
      throw Unsupported();
  // contexts which toggle the virtual keys contexts depend on may never settle
  for (auto& s : conf->stages)
    for (auto& c : s.contexts)
      if (std::any_of(c.conds.begin(), c.conds.end(), [](const Cond& d) { return !d.modifier.empty(); }))
        for (auto& m : c.maps)
          if (m.in[0].key == CTXACTIVE)
            for (auto& o : m.out)
              if (is_virtual(o.key))
                throw Unsupported();
  return true;
}
catch (const Unsupported&) {
  return false;
}

}  // namespace model
