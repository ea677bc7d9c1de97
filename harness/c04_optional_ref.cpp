// C04: optional references rebind and never copy; optional<void> is a flag.
#include "elements.hpp"
#include "pbt.hpp"
#include "slot.hpp"
#include <array>
#include <fitoria/core/optional.hpp>
#include <functional>
#include <optional>
#include <string>

static pbt::Rule rule(
    "random histories (mean 12, at most 40 steps) over optional references to "
    "base, const base, derived objects of a pool, over value optionals used as "
    "sources, and over optional<void>, compared with a model that tracks object "
    "indices; non-trivial: at least two steps rebound, emptied or engaged an "
    "optional");

namespace {
namespace fi = fitoria;
struct side {
  long x = 77;
};
struct base {
  long id;
  long val = 0;
  inline static long copies = 0;
  explicit base(long i)
      : id(i)
      , val(i * 10)
  {
  }
  base(const base& o)
      : id(o.id)
      , val(o.val)
  {
    ++copies;
  }
  base& operator=(const base& o)
  {
    id = o.id;
    val = o.val;
    ++copies;
    return *this;
  }
  // an overloaded address-of operator must not be trusted
  const base* operator&() const
  {
    return nullptr;
  }
};
struct derived : side, base { // the base subobject has another address
  using base::base;
};
using M = std::optional<std::size_t>;

using OB = fi::optional<base&>;
using OC = fi::optional<const base&>;
using OD = fi::optional<derived&>;
using OV = fi::optional<base>;

struct history {
  pbt::Case& c;
  std::array<derived, 5> pool { derived(0), derived(1), derived(2), derived(3),
                                derived(4) };
  std::array<long, 5> vals { 0, 10, 20, 30, 40 };
  std::array<slot<OB>, 3> b;
  std::array<slot<OC>, 2> k;
  std::array<slot<OD>, 2> d;
  slot<OV> own; // a value optional with its own element
  // models: index in the pool, 100 = the element owned by `own`
  std::array<M, 3> mb;
  std::array<M, 2> mk, md;
  bool own_engaged = true;
  long own_val = 1000;
  std::size_t changes = 0;

  explicit history(pbt::Case& c)
      : c(c)
  {
    for (auto& x : b) {
      x.make();
    }
    for (auto& x : k) {
      x.make();
    }
    for (auto& x : d) {
      x.make();
    }
    own.rebuild([](void* p) { new (p) OV(std::in_place, 100L); });
    base::copies = 0;
  }
  const base* addr(M m)
  {
    return *m == 100 ? std::addressof(*own.get())
                     : std::addressof(static_cast<base&>(pool[*m]));
  }
  template <typename O>
  void look(const O& x, M m, const char* what)
  {
    REQM(x.has_value() == m.has_value(), what);
    REQM(static_cast<bool>(x) == m.has_value(), what);
    if (m) {
      REQM(static_cast<const base*>(std::addressof(*x)) == addr(m),
           std::string(what) + " refers to another object");
      REQM(static_cast<const base*>(x.operator->()) == addr(m),
           std::string(what) + " -> designates another object");
    }
  }
  void verify()
  {
    for (std::size_t i = 0; i < b.size(); ++i) {
      look(b[i].get(), mb[i], "base reference");
    }
    for (std::size_t i = 0; i < k.size(); ++i) {
      look(k[i].get(), mk[i], "const reference");
    }
    for (std::size_t i = 0; i < d.size(); ++i) {
      look(d[i].get(), md[i], "derived reference");
    }
    for (std::size_t i = 0; i < pool.size(); ++i) {
      REQM(pool[i].val == vals[i] && pool[i].id == static_cast<long>(i)
               && pool[i].x == 77,
           "a referred object was modified");
    }
    REQM(base::copies == 0, "a referred object was copied");
  }
  void set(M& m, M v)
  {
    changes += m != v;
    m = v;
  }

  void step()
  {
    auto i = c.below(3), j = c.below(3), q = c.below(2), r = c.below(2);
    auto o = c.below(5);
    OB& x = b[i].get();
    OB& y = b[j].get();
    OC& ck = k[q].get();
    OD& dd = d[r].get();
    base& obj = pool[o];
    switch (c.below(30)) {
    case 0:
      c.op("construct empty", i);
      b[i].make();
      set(mb[i], {});
      break;
    case 1:
      c.op("construct bound", i, o);
      if (c.chance(1, 2)) {
        b[i].rebuild([&](void* p) { new (p) OB(obj); });
      } else { // bound through a derived lvalue
        b[i].rebuild([&](void* p) { new (p) OB(pool[o]); });
      }
      set(mb[i], o);
      break;
    case 2:
      if (i != j) {
        c.op("construct copy", i, j);
        if (c.chance(1, 2)) {
          el::copy_source(c, y, [&](auto&& from_) {
            b[i].rebuild([&](void* p) { new (p) OB(EL_FWD(from_)); });
          });
        } else {
          b[i].rebuild([&](void* p) { new (p) OB(std::move(y)); });
        }
        set(mb[i], mb[j]);
      }
      break;
    case 3:
      c.op("construct base from derived reference", i, r);
      el::copy_source(c, dd, [&](auto&& from_) {
        b[i].rebuild([&](void* p) { new (p) OB(EL_FWD(from_)); });
      });
      set(mb[i], md[r]);
      break;
    case 4:
      c.op("construct const from base reference", q, i);
      el::copy_source(c, x, [&](auto&& from_) {
        k[q].rebuild([&](void* p) { new (p) OC(EL_FWD(from_)); });
      });
      set(mk[q], mb[i]);
      break;
    case 5:
      c.op("construct const from derived reference", q, r);
      el::copy_source(c, dd, [&](auto&& from_) {
        k[q].rebuild([&](void* p) { new (p) OC(EL_FWD(from_)); });
      });
      set(mk[q], md[r]);
      break;
    case 6:
      c.op("construct const from value optional", q);
      el::copy_source(c, own.get(), [&](auto&& from_) {
        k[q].rebuild([&](void* p) { new (p) OC(EL_FWD(from_)); });
      });
      set(mk[q], own_engaged ? M(100) : M());
      break;
    case 7:
      c.op("bind base", i, o);
      if (c.chance(1, 2)) {
        REQ(std::addressof(x = obj) == std::addressof(x));
      } else {
        REQ(std::addressof(x = pool[o]) == std::addressof(x));
      }
      set(mb[i], o);
      break;
    case 8:
      c.op("bind const", q, o);
      ck = std::as_const(obj);
      set(mk[q], o);
      break;
    case 9:
      c.op("bind derived", r, o);
      dd = pool[o];
      set(md[r], o);
      break;
    case 10:
      c.op("assign", i, j);
      el::copy_source(c, y, [&](auto&& from_) {
        REQ(std::addressof(x = EL_FWD(from_)) == std::addressof(x));
      });
      set(mb[i], mb[j]);
      break;
    case 11:
      c.op("assign moving", i, j);
      x = std::move(y);
      set(mb[i], mb[j]); // the source keeps its binding
      break;
    case 12:
    case 13:
      c.op("assign base from derived reference", i, r);
      el::copy_source(c, dd, [&](auto&& from_) {
        REQ(std::addressof(x = EL_FWD(from_)) == std::addressof(x));
      });
      set(mb[i], md[r]);
      break;
    case 14:
    case 15:
      c.op("assign const from base reference", q, i);
      ck = std::as_const(x);
      set(mk[q], mb[i]);
      break;
    case 16:
      c.op("assign nullopt", i);
      REQ(std::addressof(x = fi::nullopt) == std::addressof(x));
      set(mb[i], {});
      break;
    case 17:
      c.op("empty derived", r);
      if (c.chance(1, 2)) {
        dd = fi::nullopt;
      } else {
        dd = {};
      }
      set(md[r], {});
      break;
    case 18:
      c.op("reset", i);
      x.reset();
      set(mb[i], {});
      break;
    case 19:
      c.op("reset const", q);
      ck.reset();
      set(mk[q], {});
      break;
    case 20: {
      c.op("emplace", i, o);
      base& e = x.emplace(obj);
      set(mb[i], o);
      REQ(std::addressof(e) == std::addressof(obj));
      break;
    }
    case 21:
      c.op("swap", i, j);
      x.swap(y);
      changes += mb[i] != mb[j];
      std::swap(mb[i], mb[j]);
      break;
    case 22:
      c.op("swap const", q, r);
      k[0].get().swap(k[1].get());
      changes += mk[0] != mk[1];
      std::swap(mk[0], mk[1]);
      break;
    case 23: // writing through the reference is seen in the object
      if (mb[i] && *mb[i] < 5) {
        auto v = c.range(0, 99);
        c.op("write through", i, v);
        switch (c.below(3)) {
        case 0:
          x->val = v;
          break;
        case 1:
          (*std::as_const(x)).val = v; // shallow constness
          break;
        default:
          x.value().val = v;
        }
        vals[*mb[i]] = v;
      }
      break;
    case 24: {
      c.op("value", i);
      bool threw = false;
      try {
        base& e = std::as_const(x).value();
        REQ(std::addressof(e) == addr(mb[i]));
      } catch (const fi::bad_optional_access&) {
        threw = true;
      }
      REQ_EQ(threw, !mb[i].has_value());
      break;
    }
    case 25: {
      c.op("value_or", i);
      base def(500);
      auto before = base::copies;
      base got = x.value_or(def);
      REQM(base::copies == before + 1, "value_or copies exactly once");
      base::copies = before;
      REQ_EQ(got.id, mb[i] ? static_cast<long>(*mb[i]) : 500L);
      REQ_EQ(got.val, mb[i] ? vals[*mb[i]] : 5000L);
      break;
    }
    case 26:
      chain(i, o);
      break;
    case 27: {
      auto give = c.below(2);
      c.op("or_else", i, o, give);
      int calls = 0;
      OB res = std::as_const(x).or_else([&] {
        ++calls;
        return give ? OB(obj) : OB();
      });
      REQ_EQ(calls, mb[i] ? 0 : 1);
      M want = mb[i] ? mb[i] : give ? M(o) : M();
      look(res, want, "or_else");
      break;
    }
    case 28: // the value optional used as a source changes
      if (mk[0] != M(100) && mk[1] != M(100)) {
        c.op("toggle value optional");
        if (own_engaged) {
          own.get().reset();
        } else {
          own.get().emplace(100L);
        }
        own_engaged = !own_engaged;
      }
      break;
    default:
      c.op("self assign", i);
      auto& alias = x;
      x = alias;
    }
    verify();
  }

  void chain(std::size_t i, std::size_t o)
  {
    OB& x = b[i].get();
    auto kind = c.below(5);
    c.op("chain", i, o, kind);
    int calls = 0;
    const base* seen = nullptr;
    auto hit = [&](base& e) {
      ++calls;
      seen = std::addressof(e);
    };
    switch (kind) {
    case 0: {
      auto r = x.and_then([&](base& e) {
        hit(e);
        return fi::optional<long>(e.id + 1);
      });
      REQ_EQ(r.has_value(), mb[i].has_value());
      REQ(!r || *r == static_cast<long>(*mb[i]) + 1);
      break;
    }
    case 1: {
      auto r = std::as_const(x).and_then([&](base& e) {
        hit(e);
        return OC(pool[o]);
      });
      look(r, mb[i] ? M(o) : M(), "and_then reference");
      break;
    }
    case 2: {
      auto r = x.and_then([&](base& e) {
        hit(e);
        return OB();
      });
      REQ(!r.has_value());
      break;
    }
    case 3: {
      auto r = x.transform([&](base& e) -> long& {
        hit(e);
        return e.val;
      });
      REQ_EQ(r.has_value(), mb[i].has_value());
      if (r) {
        REQM(&*r == &pool[*mb[i]].val, "transform keeps the reference");
      }
      break;
    }
    default: {
      auto r = std::as_const(x).transform([&](base& e) {
        hit(e);
        return std::to_string(e.id);
      });
      REQ_EQ(r.has_value(), mb[i].has_value());
      REQ(!r || *r == std::to_string(*mb[i]));
    }
    }
    REQ_EQ(calls, mb[i] ? 1 : 0);
    if (mb[i]) {
      REQM(seen == addr(mb[i]), "function received the referred object");
    }
  }
};

struct void_history {
  using O = fi::optional<void>;
  pbt::Case& c;
  std::array<slot<O>, 3> o;
  std::array<bool, 3> m {};
  std::size_t changes = 0;
  explicit void_history(pbt::Case& c)
      : c(c)
  {
    for (auto& x : o) {
      x.make();
    }
  }
  void set(std::size_t i, bool v)
  {
    changes += m[i] != v;
    m[i] = v;
  }
  void step()
  {
    auto i = c.below(3), j = c.below(3);
    O& x = o[i].get();
    O& y = o[j].get();
    switch (c.below(16)) {
    case 0:
      c.op("construct empty", i);
      if (c.chance(1, 2)) {
        o[i].rebuild([](void* p) { new (p) O(fi::nullopt); });
      } else {
        o[i].make();
      }
      set(i, false);
      break;
    case 1:
      c.op("construct engaged", i);
      o[i].rebuild([](void* p) { new (p) O(std::in_place); });
      set(i, true);
      break;
    case 2:
      if (i != j) {
        c.op("construct copy", i, j);
        el::copy_source(c, y, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) O(EL_FWD(from_)); });
        });
        set(i, m[j]);
      }
      break;
    case 3:
      c.op("assign nullopt", i);
      x = fi::nullopt;
      set(i, false);
      break;
    case 4:
      c.op("assign", i, j);
      el::copy_source(c, y, [&](auto&& from_) { x = EL_FWD(from_); });
      set(i, m[j]);
      break;
    case 5:
      c.op("assign moving", i, j);
      x = std::move(y);
      set(i, m[j]);
      break;
    case 6:
    case 7:
      c.op("emplace", i);
      x.emplace();
      set(i, true);
      break;
    case 8:
      c.op("reset", i);
      x.reset();
      set(i, false);
      break;
    case 9: {
      c.op("swap", i, j);
      if (c.chance(1, 2)) {
        x.swap(y);
      } else {
        swap(x, y);
      }
      changes += m[i] != m[j];
      std::swap(m[i], m[j]);
      break;
    }
    case 10: {
      c.op("value", i);
      bool threw = false;
      try {
        std::as_const(x).value();
      } catch (const fi::bad_optional_access&) {
        threw = true;
      }
      REQ_EQ(threw, !m[i]);
      break;
    }
    case 11: {
      auto give = c.chance(1, 2);
      c.op("and_then", i, give);
      int calls = 0;
      auto r = x.and_then([&] {
        ++calls;
        return give ? fi::optional<long>(42) : fi::optional<long>();
      });
      REQ_EQ(calls, m[i] ? 1 : 0);
      REQ_EQ(r.has_value(), m[i] && give);
      REQ(!r || *r == 42);
      auto r2 = std::as_const(x).and_then([&] {
        return give ? O(std::in_place) : O();
      });
      REQ_EQ(r2.has_value(), m[i] && give);
      break;
    }
    case 12: {
      c.op("transform to void", i);
      int calls = 0;
      auto r = x.transform([&] { ++calls; });
      static_assert(std::is_same_v<decltype(r), O>);
      REQ_EQ(calls, m[i] ? 1 : 0);
      REQ_EQ(r.has_value(), m[i]);
      break;
    }
    case 13: {
      auto v = c.range(-9, 9);
      c.op("transform to value", i, v);
      int calls = 0;
      auto r = std::as_const(x).transform([&] {
        ++calls;
        return std::to_string(v);
      });
      REQ_EQ(calls, m[i] ? 1 : 0);
      REQ_EQ(r.has_value(), m[i]);
      if (r) {
        REQ_EQ(*r, std::to_string(v));
      }
      break;
    }
    case 14: {
      auto give = c.chance(1, 2);
      c.op("or_else", i, give);
      int calls = 0;
      auto r = x.or_else([&] {
        ++calls;
        return give ? O(std::in_place) : O();
      });
      REQ_EQ(calls, m[i] ? 0 : 1);
      REQ_EQ(r.has_value(), m[i] || give);
      break;
    }
    default: {
      c.op("self assign", i);
      auto& alias = x;
      x = alias;
    }
    }
    for (std::size_t q = 0; q < 3; ++q) {
      REQM(o[q].get().has_value() == m[q]
               && static_cast<bool>(o[q].get()) == m[q],
           "slot " + std::to_string(q));
    }
  }
};
}

SECTION("reference histories", 400000, 5000000)
{
  history h(c);
  std::size_t n = 0;
  h.verify();
  while (c.more(n, 40, 12)) {
    ++n;
    h.step();
  }
  c.nontrivial(h.changes >= 2);
  c.label(h.changes >= 2 ? "two or more changes" : "fewer changes");
}

SECTION("void histories", 200000, 2000000)
{
  void_history h(c);
  std::size_t n = 0;
  while (c.more(n, 40, 12)) {
    ++n;
    h.step();
  }
  c.nontrivial(h.changes >= 2);
}

// A reference to a plain value, bound to objects that move around.
SECTION("references to text", 100000, 1000000)
{
  using O = fi::optional<std::string&>;
  std::array<std::string, 3> s { c.ascii(6), c.ascii(6), c.ascii(6) };
  auto copy = s;
  auto i = c.below(3), j = c.below(3);
  c.in("texts", s[0] + "|" + s[1] + "|" + s[2]);
  c.in("first", i);
  c.in("then", j);
  c.nontrivial(i != j && s[i] != s[j]);
  O o(s[i]);
  o = s[j];
  REQM(s == copy, "rebinding must not assign through");
  REQ(&*o == &s[j]);
  O p(o);
  p = s[i];
  REQ(&*o == &s[j] && &*p == &s[i]);
  swap(o, p);
  REQM(s == copy, "swapping must not swap the referred objects");
  REQ(&*o == &s[i] && &*p == &s[j]);
  O q;
  q = std::move(o);
  REQM(s == copy, "moving must not move the referred object");
  REQ(&*q == &s[i]);
  REQ_EQ(std::move(q).value_or(std::string("x")), copy[i]);
  REQM(s == copy, "value_or must not move the referred object");
  *q = "changed";
  REQ_EQ(s[i], std::string("changed"));
}
