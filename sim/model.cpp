#include <regex>
#include "model.h"
#include <algorithm>

namespace model {

bool ambiguous;

//---------------------------------------------------------------- matching
bool Stage::unmatched(const std::vector<Ev>& s) {
  return std::any_of(s.begin(), s.end(), [](const Ev& e) { return e.st != M; });
}

// does the beginning (n events) of the sequence fit the expression?
Stage::Res Stage::match(const std::vector<In>& in, const std::vector<Ev>& s, size_t n) {
  std::multiset<int> free_ups;
  std::set<int> nots;
  std::vector<int> chord;      // keys of the current chord not yet pressed
  size_t i = 0;
  auto chord_open = false;
  any.clear();
  for (size_t p = 0; ; ) {
    // conditions which do not consume input
    while (i < in.size() && (in[i].t == In::FreeUp || in[i].t == In::Not)) {
      if (in[i].t == In::FreeUp) free_ups.insert(in[i].key);
      else nots.insert(in[i].key);
      ++i;
    }
    if (i < in.size() && in[i].t == In::Chord && !chord_open) {
      chord = in[i].keys;
      chord_open = true;
    }
    if (i < in.size() && in[i].t == In::Down)
      nots.erase(in[i].key);
    if (p == n)
      return i == in.size() ? yes : might;
    auto& e = s[p];
    if (e.st != U && nots.count(e.key))
      return no;
    if (i < in.size()) {
      if (in[i].t == In::Down && e.st != U &&
          (in[i].key == e.key || (in[i].key == ANY && e.st == D && is_keyboard(e.key)))) {
        if (in[i].key == ANY)
          any.push_back(e.key);
        free_ups.erase(e.key);
        ++i;
        ++p;
        continue;
      }
      if (in[i].t == In::Up && e.st == U && in[i].key == e.key) {
        free_ups.erase(e.key);
        ++i;
        ++p;
        continue;
      }
      if (in[i].t == In::Chord && e.st != U) {
        auto it = std::find(chord.begin(), chord.end(), e.key);
        if (it != chord.end()) {
          chord.erase(it);
          if (chord.empty()) {
            ++i;
            chord_open = false;
          }
          ++p;
          continue;
        }
      }
    }
    if (e.st == U) {
      auto it = free_ups.find(e.key);
      if (free_ups.count(ANY) && std::find(any.begin(), any.end(), e.key) == any.end())
        ambiguous = true;
      if (it == free_ups.end())
        it = free_ups.find(ANY);
      if (it == free_ups.end() || (*it == ANY && !is_keyboard(e.key)))
        return no;
      free_ups.erase(it);
      ++p;
      continue;
    }
    if (e.st == M) {     // keys which already matched are optional
      ++p;
      continue;
    }
    return no;
  }
}

const std::vector<Out>* Stage::output_of(const Mapping& m) const {
  if (m.command < 0)
    return &m.out;
  for (auto it = active.rbegin(); it != active.rend(); ++it) {
    auto& c = conf.contexts[(size_t)*it].commands;
    if (auto f = c.find(m.command); f != c.end())
      return &f->second;
  }
  return nullptr;
}

Stage::Match Stage::find(size_t n, int device, const std::vector<std::string>& devices, bool whole) {
  for (auto c : active) {
    auto& ctx = conf.contexts[(size_t)c];
    auto applies = std::any_of(blocks.begin(), blocks.end(), [&](auto& b) {
      auto& cond = ctx.conds[(size_t)b.second];
      return b.first == c && ((cond.device.empty() && cond.device_id.empty()) || device == -2 ||
        (device >= 0 && device_applies(cond, devices[(size_t)device])));
    });
    if (!applies)
      continue;
    for (auto& m : ctx.maps) {
      if (m.in.size() == 1 && m.in[0].key == CTXACTIVE)
        continue;
      auto r = match(m.in, seq, n);
      if (r == might && whole)
        return { might, &m, nullptr, c };
      if (r == yes)
        if (auto out = output_of(m))
          return { yes, &m, out, c };
    }
  }
  return { };
}

// the key whose release ends the output: the last one the expression requires
int Stage::trigger_of(const Mapping& m) const {
  auto key = m.in.back().key;
  for (auto& i : m.in) {
    if (i.t == In::Down || i.t == In::Up) key = i.key;
    if (i.t == In::Chord) key = i.keys.back();
  }
  return key;
}

//---------------------------------------------------------------- contexts
static bool text_applies(const std::string& filter, bool inverted, const std::string& text, bool part) {
  if (filter.empty()) return true;
  if (filter[0] == '/' && filter.find('/', 1) >= filter.size() - 2) {
    auto icase = filter.back() == 'i';
    auto type = std::regex::ECMAScript;
    if (icase) type |= std::regex::icase;
    return std::regex_search(text, std::regex(filter.substr(1, filter.size() - (icase ? 3 : 2)), type)) != inverted;
  }
  return (part ? text.find(filter) != std::string::npos : text == filter) != inverted;
}

bool device_applies(const Cond& c, const std::string& device) {
  auto sep = device.find('\n');
  return text_applies(c.device, c.device_not, device.substr(0, sep), false) &&
    text_applies(c.device_id, c.device_id_not, sep == device.npos ? "" : device.substr(sep + 1), false);
}

bool Stage::modifier_ok(const Cond& c) const {
  auto down = [&](int k) { return std::any_of(seq.begin(), seq.end(), [k](const Ev& e) { return e.key == k; }); };
  auto ok = true;
  for (auto& [key, pressed] : c.modifier) {
    auto is = is_logical(key) ? down(logical_left(key)) || down(logical_right(key)) : down(key);
    ok = ok && is == pressed;
  }
  return ok != c.modifier_not;
}

void Stage::refresh_active() {
  auto prev = active;
  active.clear();
  blocks.clear();
  for (auto b : client_active)
    if (modifier_ok(conf.contexts[(size_t)b.first].conds[(size_t)b.second])) {
      blocks.push_back(b);
      if (active.empty() || active.back() != b.first) active.push_back(b.first);
    }
  auto has = [](const std::vector<int>& v, int c) { return std::find(v.begin(), v.end(), c) != v.end(); };
  auto signal = [&](int c, bool on) {
    for (auto& m : conf.contexts[(size_t)c].maps)
      if (m.in.size() == 1 && m.in[0].key == CTXACTIVE) {
        if (on) {
          if (auto out = output_of(m))
            apply(*out, 0, CTXACTIVE, true, c);
        }
        else {
          for (size_t i = 0; i < rest.size(); ++i)
            if (rest[i].trigger == CTXACTIVE && rest[i].ctx == c) {
              auto r = rest[i];
              apply(r.seq, 0, CTXACTIVE, false, c);
              rest.erase(rest.begin() + (long)i);
              break;
            }
          release(CTXACTIVE, c);
        }
        break;
      }
  };
  for (auto c : prev)
    if (!has(active, c)) signal(c, false);
  for (auto c : active)
    if (!has(prev, c)) signal(c, true);
}

void Stage::set_client_active(const std::vector<std::pair<int, int>>& a, std::vector<OEv>& out) {
  buf = &out;
  client_active = a;
  refresh_active();
  rest.erase(std::remove_if(rest.begin(), rest.end(), [&](const Rest& r) {
    return std::find(active.begin(), active.end(), r.ctx) == active.end();
  }), rest.end());
}

//---------------------------------------------------------------- output
void Stage::release(int trigger, int ctx) {
  std::vector<Held> keep;
  std::vector<Held> gone;
  for (auto& h : held)
    if (h.trigger == trigger && (trigger != CTXACTIVE || h.ctx == ctx)) gone.push_back(h);
    else keep.push_back(h);
  for (auto it = gone.rbegin(); it != gone.rend(); ++it)
    if (!it->temp)
      buf->push_back({ it->key, false });
  held = keep;
}

static bool common_modifier(int k) {
  return k == 42 || k == 54 || k == 29 || k == 97 || k == 56 || k == 100 || k == 125 || k == 126;
}

void Stage::put(const Out& o, int trigger, int ctx) {
  auto it = std::find_if(held.begin(), held.end(), [&](const Held& h) { return h.key == o.key; });
  switch (o.t) {
    case Out::Delay:
      buf->push_back({ NONE, true, o.key });
      break;
    case Out::Up:
      if (it == held.end())
        break;
      if (it->twice && is_virtual(o.key)) {
        it->twice = false;
        buf->push_back({ o.key, false });
      }
      else if (it->twice && !it->suppressed) {
        // it stays pressed, since it was already pressed before
        for (auto b = buf->rbegin(); b != buf->rend(); ++b)
          if (b->key == o.key) {
            buf->erase(std::next(b).base());
            break;
          }
        it->twice = false;
      }
      else {
        if (it->trigger == trigger) held.erase(it);
        else it->temp = true;
        buf->push_back({ o.key, false });
      }
      break;
    case Out::Not:
      if (it != held.end() && !is_virtual(o.key) && !is_action(o.key)) {
        if (!it->temp) {
          buf->push_back({ o.key, false });
          it->temp = true;
        }
        it->suppressed = true;
      }
      break;
    case Out::Down: {
      for (auto& h : held)
        if (h.temp && !h.suppressed) {
          h.temp = false;
          buf->push_back({ h.key, true });
          reapplied = true;
          if (h.key == o.key)
            return;
        }
        else if (h.temp && h.key == o.key && common_modifier(o.key) && !buf->empty() &&
                 buf->back().key == o.key && !buf->back().down) {
          buf->pop_back();
          h.temp = false;
          return;
        }
      if (it == held.end()) {
        held.push_back({ o.key, trigger, false, false, false, ctx });
      }
      else {
        it->temp = false;
        it->twice = true;
        if (reapplied) {
          buf->push_back({ o.key, false });
          it->twice = false;
        }
      }
      buf->push_back({ o.key, true });
      break;
    }
    case Out::OnRelease:
      break;
  }
}

void Stage::apply(const std::vector<Out>& out, size_t from, int trigger, bool trigger_down, int ctx) {
  for (auto i = from; i < out.size(); ++i) {
    auto& o = out[i];
    if (o.t == Out::OnRelease) {
      if (!trigger_down)
        continue;
      rest.push_back({ trigger, std::vector<Out>(out.begin() + (long)i + 1, out.end()), ctx });
      return;
    }
    if (o.key == ANY) {
      if (o.t == Out::Not) {
        for (auto h : std::vector<Held>(held))
          put({ Out::Not, h.key }, trigger, ctx);
      }
      else {
        for (auto k : std::vector<int>(any))
          put({ o.t, k }, trigger, ctx);
      }
    }
    else if (o.t == Out::Not && is_virtual(o.key)) {
      auto k = o.key;
      if (std::any_of(seq.begin(), seq.end(), [k](const Ev& e) { return e.key == k; }))
        put({ Out::Down, k }, trigger, ctx);
    }
    else put(o, trigger, ctx);
  }
}

std::vector<int> Stage::keys_down() const {
  std::vector<int> r;
  for (auto& h : held)
    if (is_device_key(h.key))
      r.push_back(h.key);
  return r;
}

//---------------------------------------------------------------- input
void Stage::forward() {
  for (size_t i = 0; i < seq.size(); ++i) {
    auto e = seq[i];
    if (e.st == U) {
      release(e.key);
      seq.erase(seq.begin() + (long)i);
      return;
    }
    auto up = std::any_of(seq.begin() + (long)i, seq.end(), [&](const Ev& x) { return x.key == e.key && x.st == U; });
    if (up) {
      if (e.st == D)
        put({ Out::Down, e.key }, e.key, 0);
      seq.erase(seq.begin() + (long)i);
      return;
    }
    if (e.st == D) {
      put({ Out::Down, e.key }, e.key, 0);
      seq[i].st = M;
      return;
    }
  }
}

void Stage::finish(size_t n) {
  for (size_t i = 0; i < n; ) {
    auto e = seq[i];
    if (e.st != U && !std::any_of(seq.begin() + (long)i, seq.end(), [&](const Ev& x) { return x.key == e.key && x.st == U; })) {
      seq[i].st = M;
      ++i;
      continue;
    }
    seq.erase(seq.begin() + (long)i);
    --n;
  }
}

void Stage::update(int key, bool down, int device, const std::vector<std::string>& devices, std::vector<OEv>& out) {
  buf = &out;
  // output waiting for this release
  for (size_t i = 0; i < rest.size(); ++i)
    if (rest[i].trigger == key && key != CTXACTIVE) {
      if (down)
        return;
      auto r = rest[i];
      rest.erase(rest.begin() + (long)i--);
      apply(r.seq, 0, key, false, r.ctx);
    }
  auto last = [&]() {
    for (auto i = seq.size(); i > 0; --i)
      if (seq[i - 1].key == key) return (long)i - 1;
    return -1l;
  };
  if (down) {
    auto i = last();
    if (i >= 0 && seq[(size_t)i].st != U) {
      if (holding)
        return;
      // only the keyboard pressed last repeats
      if (device != -1) {
        if (device == last_pressed_device) last_repeat_device = device;
        if (device != last_repeat_device) return;
      }
      seq.erase(seq.begin() + i);
    }
    else if (device != -1) {
      if (device == last_repeat_device) last_repeat_device = -1;
      last_pressed_device = device;
    }
  }
  else if (device == last_repeat_device) {
    last_repeat_device = -1;
  }
  seq.push_back({ key, down ? D : U });
  refresh_active();
  if (!down && !holding) {
    for (size_t i = 0; i < seq.size(); ++i)
      if (seq[i].key == key) {
        if (seq[i].st == M) seq.erase(seq.begin() + (long)i);
        break;
      }
  }
  for (auto& h : held)
    h.suppressed = false;

  while (unmatched(seq)) {
    auto n = seq.size();
    auto m = find(n, device, devices, true);
    if (is_virtual(key) && m.res != yes) {
      finish(n);
      break;
    }
    if (m.res == might) {
      holding = true;
      break;
    }
    auto partial = false;
    if (m.res == no && holding)
      while (n > 1) {
        --n;
        if (!std::any_of(seq.begin(), seq.begin() + (long)n, [](const Ev& e) { return e.st == D; }))
          break;
        m = find(n, device, devices, false);
        if (m.res == yes) {
          partial = true;
          break;
        }
      }
    if (m.res == yes) {
      auto trigger = trigger_of(*m.map);
      auto trigger_down = true;
      for (auto& i : m.map->in)
        if (i.t == In::Down || i.t == In::Up || i.t == In::Chord)
          trigger_down = i.t != In::Up;
      if (trigger == ANY) { trigger = key; trigger_down = down; }
      // a trigger which is no longer pressed is replaced by the current event
      auto pressed = false, has_up = false;
      for (auto i = seq.size(); i > 0; --i)
        if (seq[i - 1].key == trigger) {
          pressed = seq[i - 1].st != U;
          has_up = !pressed;
          break;
        }
      if (!pressed) {
        auto& o = *m.out;
        auto trivial = o.size() == 1 && o[0].t == Out::Down && o[0].key == trigger && trigger_down && has_up;
        if (!trivial) {
          trigger = key;
          trigger_down = down;
        }
      }
      apply(*m.out, 0, trigger, trigger_down, m.ctx);
      finish(n);
      if (!partial)
        holding = false;
    }
    else {
      forward();
      if (holding && !unmatched(seq))
        holding = false;
    }
  }
  if (!down)
    release(key);
  refresh_active();
  reapplied = false;
}

//---------------------------------------------------------------- server
Server::Server(const Config& c) : conf(&c) {
  for (auto& s : c.stages)
    stages.emplace_back(s);
}

void Server::reset(const Config& c) {
  if (!stages.empty())
    for (auto k : stages.back().keys_down())
      queue.push_back({ k, false });
  flush();
  conf = &c;
  stages.clear();
  for (auto& s : c.stages)
    stages.emplace_back(s);
  virtuals.clear();
  sent = { { { -1, -1 } } };     // always reported with a new configuration
}

bool Server::virtual_down(int key) const {
  return std::find(virtuals.begin(), virtuals.end(), key) != virtuals.end();
}

void Server::translate(int key, bool down, int device) {
  std::vector<OEv> out{ { key, down } };
  auto virt = is_virtual(key);
  auto first = true;
  for (auto& s : stages) {
    auto in = std::move(out);
    out.clear();
    if (!first && virt)
      s.update(key, down, device, devices, out);
    for (auto& e : in) {
      if (!first && (is_virtual(e.key) || is_action(e.key) || e.key == NONE))
        out.push_back(e);
      else
        s.update(e.key, e.down, device, devices, out);
    }
    first = false;
  }
  queue.insert(queue.end(), out.begin(), out.end());
}

void Server::flush() {
  if (sending)
    return;
  sending = true;
  auto toggled = 0;
  for (size_t i = 0; i < queue.size(); ++i) {
    auto e = queue[i];
    if (e.key == NONE)
      continue;
    if (is_wheel(e.key)) {
      if (!e.down) desk.push_back({ e.key, 0 });
      continue;
    }
    if (is_action(e.key)) {
      if (e.down) actions.push_back(e.key - ACTION);
      continue;
    }
    if (is_virtual(e.key)) {
      if (e.down && ++toggled < 10)
        set_virtual(e.key, 2);
      continue;
    }
    if (e.down) {
      desk.push_back({ e.key, desk_down.count(e.key) ? 2 : 1 });
      desk_down.insert(e.key);
    }
    else if (desk_down.erase(e.key))
      desk.push_back({ e.key, 0 });
  }
  queue.clear();
  sending = false;
}

void Server::set_virtual(int key, int mode) {
  auto down = virtual_down(key);
  if (!down && mode != 0) {
    virtuals.push_back(key);
    translate(key, true, -2);
  }
  else if (down && mode != 1) {
    virtuals.erase(std::find(virtuals.begin(), virtuals.end(), key));
    translate(key, false, -2);
  }
  flush();
}

void Server::input(int key, bool down, int device, const std::vector<std::string>& devs) {
  devices = devs;
  if (is_wheel(key))
    translate(key, true, device);
  translate(key, down, device);
  flush();
}

void Server::output(const std::vector<Out>& seq) {
  for (auto& o : seq)
    if (o.t == Out::Down || o.t == Out::Up)
      queue.push_back({ o.key, o.t == Out::Down });
  flush();
}

void Server::set_window(const Window* w, bool enabled) {
  std::string title = w ? w->title : "", cls = w ? w->cls : "", path = w ? w->path : "";
  std::vector<std::vector<std::pair<int, int>>> all;
  for (auto& sc : conf->stages) {
    all.emplace_back();
    for (size_t i = 0; i < sc.contexts.size(); ++i)
      for (size_t k = 0; k < sc.contexts[i].conds.size(); ++k) {
        auto& c = sc.contexts[i].conds[k];
        auto ok = enabled && !c.never;
        ok = ok && text_applies(c.title, c.title_not, title, true);
        ok = ok && text_applies(c.cls, c.cls_not, cls, false);
        ok = ok && text_applies(c.path, c.path_not, path, true);
        if (!c.device.empty() || !c.device_id.empty())      // no such device connected
          ok = ok && std::any_of(devices.begin(), devices.end(), [&](const std::string& d) { return device_applies(c, d); });
        if (ok) all.back().push_back({ (int)i, (int)k });
      }
  }
  // only changes are reported
  if (all == sent)
    return;
  sent = all;
  std::vector<OEv> out;
  for (auto& s : stages) {
    auto in = std::move(out);
    out.clear();
    for (auto& e : in) {
      if (is_virtual(e.key) || is_action(e.key) || e.key == NONE) out.push_back(e);
      else s.update(e.key, e.down, -1, devices, out);
    }
    s.set_client_active(all[(size_t)(&s - stages.data())], out);
  }
  queue.insert(queue.end(), out.begin(), out.end());
  flush();
}

}  // namespace model
