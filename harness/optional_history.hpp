#pragma once
// Model-based histories over fitoria::optional<T> (value specialisation).
#include "elements.hpp"
#include "pbt.hpp"
#include "slot.hpp"
#include <array>
#include <cstddef>
#include <cstring>
#include <fitoria/core/optional.hpp>
#include <new>
#include <optional>

namespace oh {
using el::fault;
using el::MOVED;
using el::tr;

template <typename T>
struct probe {
  int cat = -1;
  int calls = 0;
  long val = 0;
  bool consume = false;
  long note(int k, long v)
  {
    cat = k;
    ++calls;
    val = v;
    return v + 1;
  }
  long operator()(T& t)
  {
    return note(0, tr<T>::get(t));
  }
  long operator()(const T& t)
  {
    return note(1, tr<T>::get(t));
  }
  long operator()(T&& t)
  {
    long r = note(2, tr<T>::get(t));
    if (consume) {
      T sink(std::move(t));
    }
    return r;
  }
  long operator()(const T&& t)
  {
    return note(3, tr<T>::get(t));
  }
};

template <typename T, bool Faults>
struct history {
  using O = fitoria::optional<T>;
  using Src = typename tr<T>::Src;
  using S = fitoria::optional<Src>;
  using M = std::optional<long>;
  static constexpr bool Copy = tr<T>::copyable;

  pbt::Case& c;
  std::array<slot<O>, 3> o;
  std::array<M, 3> m;
  std::array<slot<S>, 2> s;
  std::array<M, 2> ms;
  long next = 1;
  int engaged_switches = 0;
  int kinds = 0;
  std::size_t len = 0;

  explicit history(pbt::Case& c)
      : c(c)
  {
    for (auto& x : o) {
      x.rebuild([](void* p) { new (p) O(); });
    }
    for (auto& x : s) {
      x.rebuild([](void* p) { new (p) S(); });
    }
  }

  long fresh()
  {
    return next++;
  }

  void verify()
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      if (!o[i].built) {
        continue;
      }
      O& x = o[i].get();
      REQM(x.has_value() == m[i].has_value(),
           "slot " + std::to_string(i)
               + (m[i] ? " should hold a value" : " should be empty"));
      REQM(static_cast<bool>(x) == m[i].has_value(), "operator bool");
      if (m[i]) {
        REQM(tr<T>::get(*x) == *m[i],
             "slot " + std::to_string(i) + " holds "
                 + std::to_string(tr<T>::get(*x)) + ", model says "
                 + std::to_string(*m[i]));
      }
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      S& x = s[i].get();
      REQM(x.has_value() == ms[i].has_value(), "source optional's state");
      if (ms[i]) {
        REQM(tr<T>::src_get(*x) == *ms[i], "source optional's value");
      }
    }
    if (!el::reg().error.empty()) {
      c.fail("lifetime: " + el::reg().error);
    }
  }

  void resync()
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      O& x = o[i].get();
      m[i] = x.has_value() ? M(tr<T>::get(*x)) : M();
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      S& x = s[i].get();
      ms[i] = x.has_value() ? M(tr<T>::src_get(*x)) : M();
    }
  }

  // live elements == engaged slots
  void balance(int kind)
  {
    std::size_t n = 0;
    for (auto& x : o) {
      n += x.built && x.get().has_value();
    }
    std::size_t live = 0;
    for (auto& e : el::reg().live) {
      live += e.second == kind;
    }
    REQM(live == n,
         "live elements " + std::to_string(live) + ", held elements "
             + std::to_string(n));
  }

  void assign_model(std::size_t i, M v)
  {
    engaged_switches += m[i].has_value() != v.has_value();
    m[i] = v;
  }

  void step()
  {
    auto i = c.below(3), j = c.below(3), k = c.below(2);
    auto what = c.below(34);
    if constexpr (Faults) {
      el::reg().fault_in = c.chance(2, 5) ? static_cast<long>(c.below(4)) : -1;
    }
    std::array<bool, 3> before {};
    for (std::size_t q = 0; q < 3; ++q) {
      before[q] = m[q].has_value();
    }
    bool assigning = false;
    try {
      apply(what, i, j, k, assigning);
      el::reg().fault_in = -1;
    } catch (const fault&) {
      el::reg().fault_in = -1;
      c.note("threw");
      c.label("operation threw");
      ++kinds;
      for (auto& x : o) {
        if (!x.built) {
          x.rebuild([](void* p) { new (p) O(); });
          before[static_cast<std::size_t>(&x - &o[0])] = false;
        }
      }
      if (assigning) {
        REQM(o[i].get().has_value() == before[i],
             "a throwing assignment changed between empty and engaged");
        for (std::size_t q = 0; q < 3; ++q) {
          if (q != i) {
            REQM(o[q].get().has_value() == before[q],
                 "a throwing assignment changed another optional");
          }
        }
      }
      resync();
    }
    verify();
  }

  void apply(std::size_t what, std::size_t i, std::size_t j, std::size_t k,
             bool& assigning)
  {
    O& x = o[i].get();
    O& y = o[j].get();
    S& z = s[k].get();
    auto v = fresh();
    switch (what) {
    // ------------------------------------------------ construction
    case 0:
      c.op("construct empty", i);
      switch (c.below(3)) {
      case 0:
        o[i].rebuild([](void* p) { new (p) O(); });
        break;
      case 1:
        o[i].rebuild([](void* p) { new (p) O(fitoria::nullopt); });
        break;
      default:
        o[i].rebuild([](void* p) { new (p) O {}; });
      }
      assign_model(i, {});
      break;
    case 1: {
      c.op("construct from value", i, v);
      T t = tr<T>::make(v);
      o[i].rebuild([&](void* p) { new (p) O(std::move(t)); });
      assign_model(i, v);
      REQM(tr<T>::get(t) == el::moved_by_construct<T>(v),
           "constructing from an rvalue must move");
      break;
    }
    case 2: {
      if constexpr (Copy) {
        c.op("construct from lvalue", i, v);
        T t = tr<T>::make(v);
        el::copy_source(c, t, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) O(EL_FWD(from_)); });
        });
        assign_model(i, v);
        REQM(tr<T>::get(t) == v, "source of a copy changed");
      }
      break;
    }
    case 3:
      c.op("construct in place", i, v);
      if constexpr (tr<T>::args) {
        if (Copy && c.chance(1, 4)) {
          if constexpr (Copy) {
            T t = tr<T>::make(v);
            el::copy_source(c, t, [&](auto&& from_) {
              o[i].rebuild(
                  [&](void* p) { new (p) O(std::in_place, EL_FWD(from_)); });
            });
            assign_model(i, v);
            REQM(tr<T>::get(t) == v, "source of a copy changed");
          }
        } else if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) { new (p) O(std::in_place, v, 5L); });
          assign_model(i, tr<T>::multi(v, 5));
        } else {
          o[i].rebuild([&](void* p) {
            new (p) O(std::in_place, { 1, 2, 3 }, v);
          });
          assign_model(i, tr<T>::list3(v));
        }
      } else {
        o[i].rebuild([&](void* p) { new (p) O(std::in_place, v); });
        assign_model(i, v);
      }
      break;
    case 4:
      if constexpr (Copy) {
        if (i != j) {
          c.op("construct copy of", i, j);
          el::copy_source(c, y, [&](auto&& from_) {
            o[i].rebuild([&](void* p) { new (p) O(EL_FWD(from_)); });
          });
          assign_model(i, m[j]);
        }
      }
      break;
    case 5:
      if (i != j) {
        c.op("construct moving", i, j);
        o[i].rebuild([&](void* p) { new (p) O(std::move(y)); });
        assign_model(i, m[j]);
        if (m[j]) {
          m[j] = el::moved_by_construct<T>(*m[j]);
        }
      }
      break;
    case 6: {
      c.op("construct from other optional", i, k);
      el::copy_source(c, z, [&](auto&& from_) {
        o[i].rebuild([&](void* p) { new (p) O(EL_FWD(from_)); });
      });
      assign_model(i, ms[k]);
      break;
    }
    case 7:
      c.op("construct from moved other optional", i, k);
      o[i].rebuild([&](void* p) { new (p) O(std::move(z)); });
      assign_model(i, ms[k]);
      if (ms[k]) {
        ms[k] = tr<T>::src_moved(*ms[k]);
      }
      break;
    case 8: {
      c.op("construct from other value", i, v);
      auto sv = tr<T>::src(v);
      if (c.chance(1, 2)) {
        el::copy_source(c, sv, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) O(EL_FWD(from_)); });
        });
        REQM(tr<T>::src_get(sv) == v, "source of a copy changed");
      } else {
        o[i].rebuild([&](void* p) { new (p) O(std::move(sv)); });
        REQM(tr<T>::src_get(sv) == tr<T>::src_moved(v), "must move");
      }
      assign_model(i, v);
      break;
    }
    case 9:
      c.op("make_optional", i, v);
      if (c.chance(1, 2)) {
        o[i].rebuild([&](void* p) {
          new (p) O(fitoria::make_optional(tr<T>::make(v)));
        });
        assign_model(i, v);
      } else if constexpr (tr<T>::args) {
        if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) {
            new (p) O(fitoria::make_optional<T>(v, 5L));
          });
          assign_model(i, tr<T>::multi(v, 5));
        } else {
          o[i].rebuild([&](void* p) {
            new (p) O(fitoria::make_optional<T>({ 1, 2, 3 }, v));
          });
          assign_model(i, tr<T>::list3(v));
        }
      } else {
        o[i].rebuild(
            [&](void* p) { new (p) O(fitoria::make_optional<T>(v)); });
        assign_model(i, v);
      }
      break;
    // ------------------------------------------------ assignment
    case 10:
      c.op("assign nullopt", i);
      if (c.chance(1, 2)) {
        REQM(&(x = fitoria::nullopt) == &x, "assignment returns itself");
      } else {
        x = {};
      }
      assign_model(i, {});
      break;
    case 11:
    case 12:
      if constexpr (Copy) {
        c.op("assign copy", i, j);
        assigning = true;
        el::copy_source(c, y, [&](auto&& from_) {
          REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
        });
        assign_model(i, m[j]);
      }
      break;
    case 13:
    case 14:
      if (i != j) {
        c.op("assign moving", i, j);
        assigning = true;
        bool had = m[i].has_value();
        REQM(&(x = std::move(y)) == &x, "assignment returns itself");
        assign_model(i, m[j]);
        if (m[j]) {
          m[j] = had ? el::moved_by_assign<T>(*m[j])
                     : el::moved_by_construct<T>(*m[j]);
        }
      }
      break;
    case 15: {
      c.op("assign rvalue", i, v);
      assigning = true;
      T t = tr<T>::make(v);
      bool had = m[i].has_value();
      REQM(&(x = std::move(t)) == &x, "assignment returns itself");
      assign_model(i, v);
      REQM(tr<T>::get(t)
               == (had ? el::moved_by_assign<T>(v)
                       : el::moved_by_construct<T>(v)),
           "assigning an rvalue must move");
      break;
    }
    case 16:
      if constexpr (Copy) {
        c.op("assign lvalue", i, v);
        assigning = true;
        T t = tr<T>::make(v);
        el::copy_source(c, t, [&](auto&& from_) {
          x = EL_FWD(from_);
        });
        assign_model(i, v);
        REQM(tr<T>::get(t) == v, "source of a copy changed");
      }
      break;
    case 17: {
      c.op("assign other optional", i, k);
      assigning = true;
      el::copy_source(c, z, [&](auto&& from_) {
        REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
      });
      assign_model(i, ms[k]);
      break;
    }
    case 18:
      c.op("assign moved other optional", i, k);
      assigning = true;
      REQM(&(x = std::move(z)) == &x, "assignment returns itself");
      assign_model(i, ms[k]);
      if (ms[k]) {
        ms[k] = tr<T>::src_moved(*ms[k]);
      }
      break;
    case 19: {
      c.op("assign other value", i, v);
      assigning = true;
      auto sv = tr<T>::src(v);
      if (c.chance(1, 2)) {
        el::copy_source(c, sv, [&](auto&& from_) { x = EL_FWD(from_); });
        REQM(tr<T>::src_get(sv) == v, "source of a copy changed");
      } else {
        x = std::move(sv);
        REQM(tr<T>::src_get(sv) == tr<T>::src_moved(v), "must move");
      }
      assign_model(i, v);
      break;
    }
    // ------------------------------------------------ emplace, swap, reset
    case 20: {
      c.op("emplace", i, v);
      T* ret;
      M want;
      if constexpr (tr<T>::args) {
        switch (c.below(3)) {
        case 0:
          ret = &x.emplace(v, 5L);
          want = tr<T>::multi(v, 5);
          break;
        case 1:
          ret = &x.emplace({ 1, 2, 3 }, v);
          want = tr<T>::list3(v);
          break;
        default:
          want = v;
          if constexpr (Copy) {
            if (c.chance(1, 2)) {
              T t = tr<T>::make(v);
              el::copy_source(c, t, [&](auto&& from_) {
                ret = &x.emplace(EL_FWD(from_));
              });
              REQM(tr<T>::get(t) == v, "source of a copy changed");
              break;
            }
          }
          ret = &x.emplace(tr<T>::make(v));
        }
      } else {
        ret = &x.emplace(tr<T>::make(v));
        want = v;
      }
      assign_model(i, want);
      REQM(ret == &*x, "emplace returns the new element");
      break;
    }
    case 21:
      c.op("reset", i);
      x.reset();
      assign_model(i, {});
      break;
    case 22:
    case 23:
      c.op("swap", i, j);
      if (c.chance(1, 2)) {
        x.swap(y);
      } else {
        using std::swap;
        swap(x, y);
      }
      engaged_switches += m[i].has_value() != m[j].has_value();
      std::swap(m[i], m[j]);
      break;
    // ------------------------------------------------ source slots
    case 24:
      c.op("source assign", k, v);
      z = tr<T>::src(v);
      ms[k] = v;
      break;
    case 25:
      c.op("source reset", k);
      z.reset();
      ms[k] = {};
      break;
    // ------------------------------------------------ observation
    case 26:
      c.op("value", i);
      value(i);
      break;
    case 27:
      c.op("deref", i);
      if (m[i]) {
        REQM(&*x == x.operator->() && &*std::as_const(x)
                     == std::as_const(x).operator->()
                 && &*x == &*std::as_const(x),
             "-> and * designate the same object");
        static_assert(std::is_same_v<decltype(*std::declval<O&>()), T&>);
        static_assert(
            std::is_same_v<decltype(*std::declval<const O&>()), const T&>);
        static_assert(std::is_same_v<decltype(*std::declval<O>()), T&&>);
        T&& r = *std::move(x);
        REQM(&r == &*x, "*rvalue designates the element");
        const T&& cr = *std::move(std::as_const(x));
        REQM(&cr == &*x, "*const rvalue designates the element");
      }
      break;
    case 28:
      value_or(i, v);
      break;
    case 29:
    case 30:
      chain(i);
      break;
    case 31:
      or_else(i, v);
      break;
    case 32: { // moving the element out leaves the optional engaged
      if (m[i]) {
        c.op("move element out", i);
        T t = c.chance(1, 2) ? T(*std::move(x)) : T(std::move(x).value());
        auto old = *m[i];
        m[i] = el::moved_by_construct<T>(*m[i]);
        REQM(tr<T>::get(t) == old, "moved-out element");
      }
      break;
    }
    default:
      if constexpr (Copy) {
        c.op("self copy assign", i);
        assigning = true;
        auto& alias = x;
        x = alias;
      }
      break;
    }
  }

  template <typename F>
  void throws_when_empty(std::size_t i, F&& f)
  {
    bool threw = false;
    try {
      f();
    } catch (const fitoria::bad_optional_access& e) {
      threw = true;
      REQM(std::string(e.what()) == "bad optional access", "message");
    }
    REQM(threw == !m[i].has_value(), "value() throws exactly when empty");
  }

  void value(std::size_t i)
  {
    O& x = o[i].get();
    const O& cx = x;
    long got = 0;
    throws_when_empty(i, [&] { got = tr<T>::get(x.value()); });
    throws_when_empty(i, [&] { got += tr<T>::get(cx.value()); });
    throws_when_empty(i, [&] {
      T&& r = std::move(x).value();
      got += tr<T>::get(r);
    });
    throws_when_empty(i, [&] {
      const T&& r = std::move(cx).value();
      got += tr<T>::get(r);
    });
    if (m[i]) {
      REQ_EQ(got, 4 * *m[i]);
    }
    const std::exception* base = nullptr;
    if (!m[i]) {
      try {
        x.value();
      } catch (const std::exception& e) {
        base = &e;
      }
      REQM(base != nullptr, "the exception is a std::exception");
    }
  }

  void value_or(std::size_t i, long v)
  {
    O& x = o[i].get();
    auto how = c.below(4);
    c.op("value_or", i, v, how);
    T t = tr<T>::make(v);
    M want = m[i] ? m[i] : M(v);
    auto expect = [&](T r) {
      REQM(tr<T>::get(r) == *want, "value_or result");
    };
    switch (how) {
    case 0:
      if constexpr (Copy) {
        el::copy_source(c, x, [&](auto&& self_) {
          el::copy_source(c, t, [&](auto&& def_) {
            expect(EL_FWD(self_).value_or(EL_FWD(def_)));
          });
        });
        REQM(tr<T>::get(t) == v, "default changed");
      }
      break;
    case 1:
      if constexpr (Copy) {
        expect(x.value_or(std::move(t)));
        REQM(tr<T>::get(t) == (m[i] ? v : el::moved_by_construct<T>(v)),
             "default moved exactly when used");
      }
      break;
    case 2: {
      expect(std::move(x).value_or(std::move(t)));
      if (m[i]) {
        REQM(tr<T>::get(t) == v, "unused default must stay");
        m[i] = el::moved_by_construct<T>(*m[i]);
      } else {
        REQM(tr<T>::get(t) == el::moved_by_construct<T>(v), "default moved");
      }
      break;
    }
    default: {
      auto sv = tr<T>::src(v);
      expect(std::move(x).value_or(std::move(sv)));
      if (m[i]) {
        m[i] = el::moved_by_construct<T>(*m[i]);
      }
    }
    }
  }

  // and_then / transform on the four value categories
  void chain(std::size_t i)
  {
    O& x = o[i].get();
    const O& cx = x;
    auto cat = static_cast<int>(c.below(4));
    auto kind = c.below(5);
    probe<T> p;
    p.consume = c.chance(1, 2);
    c.op("chain", i, cat, kind, p.consume);
    auto call = [&](auto&& f) {
      switch (cat) {
      case 0:
        f(x);
        break;
      case 1:
        f(cx);
        break;
      case 2:
        f(std::move(x));
        break;
      default:
        f(std::move(cx));
      }
    };
    using OL = fitoria::optional<long>;
    call([&](auto&& self) {
      using Self = decltype(self);
      switch (kind) {
      case 0: {
        OL r = std::forward<Self>(self).transform(std::ref(p));
        REQM(r.has_value() == m[i].has_value(), "transform engaged");
        if (r) {
          REQM(*r == *m[i] + 1, "transform result");
        }
        break;
      }
      case 1: {
        OL r = std::forward<Self>(self).and_then(
            [&](auto&& t) { return OL(p(std::forward<decltype(t)>(t))); });
        REQM(r.has_value() == m[i].has_value(), "and_then engaged");
        if (r) {
          REQM(*r == *m[i] + 1, "and_then result");
        }
        break;
      }
      case 2: {
        OL r = std::forward<Self>(self).and_then([&](auto&& t) {
          p(std::forward<decltype(t)>(t));
          return OL();
        });
        REQM(!r.has_value(), "and_then of an empty result");
        break;
      }
      case 3: { // heap-owning result, moved through
        auto r = std::forward<Self>(self).transform([&](auto&& t) {
          return el::HeapT<7, false>(p(std::forward<decltype(t)>(t)));
        });
        REQM(r.has_value() == m[i].has_value(), "transform engaged");
        if (r) {
          REQM(r->get() == *m[i] + 1, "transform result");
        }
        break;
      }
      default: { // a reference result refers, it is not copied
        static long target;
        auto r = std::forward<Self>(self).transform(
            [&](auto&& t) -> long& {
              target = p(std::forward<decltype(t)>(t));
              return target;
            });
        REQM(r.has_value() == m[i].has_value(), "transform engaged");
        if (r) {
          REQM(&*r == &target, "reference result");
        }
      }
      }
    });
    REQM(p.calls == (m[i] ? 1 : 0), "function called exactly when engaged");
    if (m[i]) {
      REQM(p.val == *m[i], "function received the value");
      REQM(p.cat == cat, "function received the right value category");
      if (cat == 2 && p.consume) {
        m[i] = el::moved_by_construct<T>(*m[i]);
      }
    }
  }

  void or_else(std::size_t i, long v)
  {
    O& x = o[i].get();
    auto how = c.below(4);
    c.op("or_else", i, v, how);
    int calls = 0;
    bool give = c.chance(2, 3);
    auto f = [&]() -> O {
      ++calls;
      return give ? O(tr<T>::make(v)) : O();
    };
    M want = m[i] ? m[i] : give ? M(v) : M();
    auto expect = [&](O r) {
      REQM(r.has_value() == want.has_value(), "or_else engaged");
      if (r) {
        REQM(tr<T>::get(*r) == *want, "or_else result");
      }
      REQM(calls == (m[i] ? 0 : 1), "fallback called exactly when empty");
    };
    if (how < 2 && Copy) {
      if constexpr (Copy) {
        if (how == 0) {
          expect(x.or_else(f));
        } else {
          expect(std::move(std::as_const(x)).or_else(f));
        }
      }
    } else {
      expect(std::move(x).or_else(f));
      if (m[i]) {
        m[i] = el::moved_by_construct<T>(*m[i]);
      }
    }
  }

  void run(std::size_t max)
  {
    verify();
    while (c.more(len, max, 12)) {
      ++len;
      step();
    }
  }
};
}

namespace oh {
template <typename T>
void run_model(pbt::Case& c)
{
  el::reg().reset();
  {
    oh::history<T, false> h(c);
    h.run(40);
    c.nontrivial(h.engaged_switches >= 2);
    if (h.engaged_switches >= 2) {
      c.label("two or more switches");
    }
  }
  if (!el::reg().error.empty()) {
    c.fail("lifetime: " + el::reg().error);
  }
}
}
