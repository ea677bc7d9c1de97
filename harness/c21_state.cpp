// C21: shared state lookup returns the innermost registration, nothing leaks.
#include "pbt.hpp"
#include <fitoria/web/state_storage.hpp>
#include <map>
#include <memory>
#include <string>

static pbt::Rule rule(
    "histories deriving up to a dozen registrations from one another by "
    "prepending, appending and inserting state of six types (maps shared "
    "between registrations), changing found objects in place, with every lookup "
    "on every registration compared with a model after each step; non-trivial: "
    "a registration derived from one that is looked up again afterwards");

namespace fi = fitoria;
using namespace fi::web;
namespace {
struct A {
  int v;
};
struct B {
  int v;
};
struct D : A { };
template <int>
struct tagged {
  int v;
};
using big = std::pair<int, std::string>; // does not fit std::any's buffer
constexpr int types = 6;

std::any make(int type, int v)
{
  switch (type) {
  case 0:
    return A { v };
  case 1:
    return B { v };
  case 2: {
    D d;
    d.v = v;
    return d;
  }
  case 3:
    return tagged<0> { v };
  case 4:
    return v;
  default:
    return big(v, "a text that is far too long for the small buffer");
  }
}
std::type_index index_of(int type)
{
  switch (type) {
  case 0:
    return typeid(A);
  case 1:
    return typeid(B);
  case 2:
    return typeid(D);
  case 3:
    return typeid(tagged<0>);
  case 4:
    return typeid(int);
  default:
    return typeid(big);
  }
}
// the object found, as the address of its number
int* find(const state_storage& s, int type)
{
  switch (type) {
  case 0: {
    auto o = s.state<A>();
    return o ? &o->v : nullptr;
  }
  case 1: {
    auto o = s.state<B>();
    return o ? &o->v : nullptr;
  }
  case 2: {
    auto o = s.state<D>();
    return o ? &o->v : nullptr;
  }
  case 3: {
    auto o = s.state<tagged<0>>();
    return o ? &o->v : nullptr;
  }
  case 4: {
    auto o = s.state<int>();
    return o ? &*o : nullptr;
  }
  default: {
    auto o = s.state<big>();
    return o ? &o->first : nullptr;
  }
  }
}
// model: registrations are lists of scopes, a scope maps types to objects
using object = std::shared_ptr<int>;
using scope = std::map<int, object>;
using registration = std::vector<std::shared_ptr<scope>>;
object lookup(const registration& r, int type)
{
  for (auto& m : r) {
    if (auto it = m->find(type); it != m->end()) {
      return it->second;
    }
  }
  return nullptr;
}
}

SECTION("histories", 120000, 2500000)
{
  std::vector<state_storage> regs(1);
  std::vector<registration> model(1);
  std::vector<std::pair<shared_state_map, std::shared_ptr<scope>>> maps;
  std::map<int*, int*> shared; // model object -> library object
  int next = 1;
  auto gen_map = [&] {
    if (!maps.empty() && c.chance(1, 3)) {
      auto k = c.below(maps.size());
      c.op("  reuse map", k);
      return maps[k];
    }
    auto m = std::make_shared<state_map>();
    auto s = std::make_shared<scope>();
    for (int i = 0; c.more(i, 4, 2); ++i) {
      int t = static_cast<int>(c.below(types));
      c.op("  with", t, next);
      (*m)[index_of(t)] = make(t, next);
      (*s)[t] = std::make_shared<int>(next);
      ++next;
    }
    maps.emplace_back(m, s);
    return maps.back();
  };
  auto verify = [&] {
    for (std::size_t i = 0; i < regs.size(); ++i) {
      for (int t = 0; t < types; ++t) {
        auto want = lookup(model[i], t);
        auto got = find(regs[i], t);
        REQM((got != nullptr) == (want != nullptr),
             "registration " + std::to_string(i) + " type " + std::to_string(t));
        if (want) {
          REQM(*got == *want,
               "registration " + std::to_string(i) + " type "
                   + std::to_string(t) + " got " + std::to_string(*got)
                   + " want " + std::to_string(*want));
          // the object is the shared one: always at the same place
          auto [it, fresh] = shared.emplace(want.get(), got);
          REQM(fresh || it->second == got,
               "registration " + std::to_string(i) + " type "
                   + std::to_string(t) + ": another object");
        }
      }
    }
  };
  std::vector<object> keep; // model addresses stay unique
  auto remember = [&] {
    for (auto& r : model) {
      for (auto& m : r) {
        for (auto& [t, o] : *m) {
          if (keep.empty() || keep.back() != o) {
            keep.push_back(o);
          }
        }
      }
    }
  };
  for (int i = 0; c.more(i, 12, 6); ++i) {
    auto from = c.below(regs.size());
    switch (c.weighted({ 4, 3, 3, 2, 1, 1 })) {
    case 0: {
      int t = static_cast<int>(c.below(types));
      c.op("insert_front", from, t, next);
      regs.push_back(regs[from].copy_insert_front(index_of(t), make(t, next)));
      auto r = model[from];
      r.insert(r.begin(), std::make_shared<scope>());
      (*r.front())[t] = std::make_shared<int>(next);
      ++next;
      model.push_back(r);
      c.nontrivial();
      break;
    }
    case 1: {
      c.op("prepend", from);
      auto [m, s] = gen_map();
      regs.push_back(regs[from].copy_prepend(m));
      auto r = model[from];
      r.insert(r.begin(), s);
      model.push_back(r);
      c.nontrivial();
      break;
    }
    case 2: {
      c.op("append", from);
      auto [m, s] = gen_map();
      regs.push_back(regs[from].copy_append(m));
      auto r = model[from];
      r.push_back(s);
      model.push_back(r);
      c.nontrivial();
      break;
    }
    case 3: { // change a found object in place: all who share it see it
      int t = static_cast<int>(c.below(types));
      auto o = lookup(model[from], t);
      if (o) {
        c.op("change in place", from, t, next);
        *find(regs[from], t) = next;
        *o = next++;
      }
      break;
    }
    case 4: {
      c.op("copy", from);
      regs.push_back(regs[from]);
      model.push_back(model[from]);
      break;
    }
    default: {
      c.op("drop", from);
      remember();
      if (regs.size() > 1) {
        regs.erase(regs.begin() + static_cast<long>(from));
        model.erase(model.begin() + static_cast<long>(from));
      }
    }
    }
    remember();
    verify();
  }
}
