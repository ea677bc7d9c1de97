#pragma once
// Model-based histories over fitoria::expected<T, E> (value specialisation).
#include "elements.hpp"
#include "pbt.hpp"
#include "slot.hpp"
#include <array>
#include <exception>
#include <fitoria/core/expected.hpp>
#include <functional>
#include <string>

namespace eh {
namespace fi = fitoria;
using el::fault;
using el::MOVED;
using el::tr;

struct model {
  bool has = true;
  long v = 0;
};

// records calls and the value category it was called with
template <typename T>
struct probe {
  int cat = -1;
  int calls = 0;
  long val = 0;
  bool consume = false;
  long note(int k, long v)
  {
    cat = k;
    ++calls;
    val = v;
    return v + 1;
  }
  long operator()(T& t)
  {
    return note(0, tr<T>::get(t));
  }
  long operator()(const T& t)
  {
    return note(1, tr<T>::get(t));
  }
  long operator()(T&& t)
  {
    long r = note(2, tr<T>::get(t));
    if (consume) {
      T sink(std::move(t));
    }
    return r;
  }
  long operator()(const T&& t)
  {
    return note(3, tr<T>::get(t));
  }
};

template <bool All, typename X, typename F>
void as_category(int cat, X& x, F&& f)
{
  if constexpr (All) {
    switch (cat) {
    case 0:
      f(x);
      return;
    case 1:
      f(std::as_const(x));
      return;
    case 3:
      f(std::move(std::as_const(x)));
      return;
    }
  }
  f(std::move(x));
}

template <typename T, typename E, bool Faults>
struct history {
  using X = fi::expected<T, E>;
  using TS = typename tr<T>::Src;
  using ES = typename tr<E>::Src;
  using Z = fi::expected<TS, ES>;
  using UE = fi::unexpected<E>;
  using US = fi::unexpected<ES>;
  static constexpr bool TC = tr<T>::copyable;
  static constexpr bool EC = tr<E>::copyable;
  static constexpr bool Copy = TC && EC;

  pbt::Case& c;
  std::array<slot<X>, 3> o;
  std::array<model, 3> m;
  std::array<slot<Z>, 2> s;
  std::array<model, 2> ms;
  long next = 1;
  int switches = 0;
  std::size_t len = 0;

  explicit history(pbt::Case& c)
      : c(c)
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      fallback(i);
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      s[i].rebuild([](void* p) { new (p) Z(std::in_place, tr<T>::src(0)); });
    }
  }
  void fallback(std::size_t i)
  {
    T t = tr<T>::make(0);
    o[i].rebuild([&](void* p) { new (p) X(std::in_place, std::move(t)); });
    m[i] = { true, 0 };
  }
  static long got(const X& x)
  {
    return x.has_value() ? tr<T>::get(*x) : tr<E>::get(x.error());
  }
  static long got(const Z& x)
  {
    return x.has_value() ? tr<T>::src_get(*x) : tr<E>::src_get(x.error());
  }
  long moved_c(const model& w) const // left behind by move construction
  {
    return w.has ? el::moved_by_construct<T>(w.v)
                 : el::moved_by_construct<E>(w.v);
  }
  void set(std::size_t i, bool has, long v)
  {
    switches += m[i].has != has;
    m[i] = { has, v };
  }

  void verify()
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      X& x = o[i].get();
      REQM(x.has_value() == m[i].has && static_cast<bool>(x) == m[i].has,
           "slot " + std::to_string(i)
               + (m[i].has ? " should hold a value" : " should hold an error"));
      REQM(got(x) == m[i].v,
           "slot " + std::to_string(i) + " holds " + std::to_string(got(x))
               + ", model says " + std::to_string(m[i].v));
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      Z& x = s[i].get();
      REQM(x.has_value() == ms[i].has && got(x) == ms[i].v,
           "source expected " + std::to_string(i));
    }
    if (!el::reg().error.empty()) {
      c.fail("lifetime: " + el::reg().error);
    }
  }
  void resync()
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      m[i] = { o[i].get().has_value(), got(o[i].get()) };
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      ms[i] = { s[i].get().has_value(), got(s[i].get()) };
    }
  }
  void balance()
  {
    std::size_t vals = 0, errs = 0, lv = 0, le = 0;
    for (auto& x : o) {
      (x.get().has_value() ? vals : errs) += 1;
    }
    for (auto& e : el::reg().live) {
      lv += e.second == 1;
      le += e.second == 2;
    }
    // element types that do not register leave no trace
    if (el::reg().constructed) {
      if constexpr (requires(T t) { t.registered(); }) {
        REQM(lv == vals, "live values vs held values");
      }
      if constexpr (requires(E e) { e.registered(); }) {
        REQM(le == errs, "live errors vs held errors");
      }
    }
  }

  void step()
  {
    auto i = c.below(3), j = c.below(3), k = c.below(2);
    auto what = c.below(40);
    if constexpr (Faults) {
      el::reg().fault_in = c.chance(2, 5) ? static_cast<long>(c.below(5)) : -1;
    }
    auto before = m;
    try {
      apply(what, i, j, k);
      el::reg().fault_in = -1;
    } catch (const fault&) {
      el::reg().fault_in = -1;
      c.note("threw");
      c.label("operation threw");
      for (std::size_t q = 0; q < o.size(); ++q) {
        if (!o[q].built) {
          fallback(q);
        } else {
          REQM(o[q].get().has_value() == before[q].has,
               "an operation that threw switched slot " + std::to_string(q)
                   + " to the other alternative");
        }
      }
      resync();
    }
    verify();
  }

  void apply(std::size_t what, std::size_t i, std::size_t j, std::size_t k)
  {
    X& x = o[i].get();
    X& y = o[j].get();
    Z& z = s[k].get();
    auto v = next++;
    switch (what) {
    // ------------------------------------------------ construction
    case 0: {
      c.op("construct from value", i, v);
      T t = tr<T>::make(v);
      o[i].rebuild([&](void* p) { new (p) X(std::move(t)); });
      set(i, true, v);
      REQM(tr<T>::get(t) == el::moved_by_construct<T>(v), "must move");
      break;
    }
    case 1:
      if constexpr (TC) {
        c.op("construct from lvalue", i, v);
        T t = tr<T>::make(v);
        el::copy_source(c, t, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
        });
        set(i, true, v);
        REQM(tr<T>::get(t) == v, "source of a copy changed");
      }
      break;
    case 2:
      c.op("construct value in place", i, v);
      if constexpr (tr<T>::args) {
        if (TC && c.chance(1, 4)) {
          if constexpr (TC) {
            T t = tr<T>::make(v);
            el::copy_source(c, t, [&](auto&& from_) {
              o[i].rebuild(
                  [&](void* p) { new (p) X(std::in_place, EL_FWD(from_)); });
            });
            set(i, true, v);
            REQM(tr<T>::get(t) == v, "source of a copy changed");
          }
        } else if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) { new (p) X(std::in_place, v, 5L); });
          set(i, true, tr<T>::multi(v, 5));
        } else {
          o[i].rebuild(
              [&](void* p) { new (p) X(std::in_place, { 1, 2, 3 }, v); });
          set(i, true, tr<T>::list3(v));
        }
      } else {
        o[i].rebuild([&](void* p) { new (p) X(std::in_place, v); });
        set(i, true, v);
      }
      break;
    case 3:
      c.op("construct error in place", i, v);
      if constexpr (tr<E>::args) {
        if (EC && c.chance(1, 4)) {
          if constexpr (EC) {
            E t = tr<E>::make(v);
            el::copy_source(c, t, [&](auto&& from_) {
              o[i].rebuild(
                  [&](void* p) { new (p) X(fi::unexpect, EL_FWD(from_)); });
            });
            set(i, false, v);
            REQM(tr<E>::get(t) == v, "source of a copy changed");
          }
        } else if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) { new (p) X(fi::unexpect, v, 5L); });
          set(i, false, tr<E>::multi(v, 5));
        } else {
          o[i].rebuild(
              [&](void* p) { new (p) X(fi::unexpect, { 1, 2, 3 }, v); });
          set(i, false, tr<E>::list3(v));
        }
      } else {
        o[i].rebuild([&](void* p) { new (p) X(fi::unexpect, v); });
        set(i, false, v);
      }
      break;
    case 4:
    case 5: {
      c.op("construct from unexpected", i, v);
      UE u(tr<E>::make(v));
      if (c.chance(1, 2)) {
        o[i].rebuild([&](void* p) { new (p) X(std::move(u)); });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == el::moved_by_construct<E>(v),
             "must move");
      } else if constexpr (EC) {
        el::copy_source(c, u, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
        });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == v, "source of a copy changed");
      }
      break;
    }
    case 6: {
      c.op("construct from convertible unexpected", i, v);
      US u(tr<E>::src(v));
      if (c.chance(1, 2)) {
        o[i].rebuild([&](void* p) { new (p) X(std::move(u)); });
        REQM(tr<E>::src_get(u.error()) == tr<E>::src_moved(v), "must move");
      } else {
        el::copy_source(c, u, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
        });
        REQM(tr<E>::src_get(u.error()) == v, "source of a copy changed");
      }
      set(i, false, v);
      break;
    }
    case 7:
    case 8:
      if constexpr (Copy) {
        if (i != j) {
          c.op("construct copy of", i, j);
          el::copy_source(c, y, [&](auto&& from_) {
            o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
          });
          set(i, m[j].has, m[j].v);
        }
      }
      break;
    case 9:
      if (i != j) {
        c.op("construct moving", i, j);
        o[i].rebuild([&](void* p) { new (p) X(std::move(y)); });
        set(i, m[j].has, m[j].v);
        m[j].v = moved_c(m[j]);
      }
      break;
    case 10:
      c.op("construct from convertible expected", i, k);
      el::copy_source(c, z, [&](auto&& from_) {
        o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
      });
      set(i, ms[k].has, ms[k].v);
      break;
    case 11:
      c.op("construct from moved convertible expected", i, k);
      o[i].rebuild([&](void* p) { new (p) X(std::move(z)); });
      set(i, ms[k].has, ms[k].v);
      ms[k].v = ms[k].has ? tr<T>::src_moved(ms[k].v)
                          : tr<E>::src_moved(ms[k].v);
      break;
    case 12:
      c.op("construct from convertible value", i, v);
      {
        auto sv = tr<T>::src(v);
        if (c.chance(1, 2)) {
          el::copy_source(c, sv, [&](auto&& from_) {
            o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
          });
          REQM(tr<T>::src_get(sv) == v, "source of a copy changed");
        } else {
          o[i].rebuild([&](void* p) { new (p) X(std::move(sv)); });
          REQM(tr<T>::src_get(sv) == tr<T>::src_moved(v), "must move");
        }
      }
      set(i, true, v);
      break;
    // ------------------------------------------------ assignment
    case 13:
    case 14:
    case 15:
      if constexpr (Copy) {
        c.op("assign copy", i, j);
        el::copy_source(c, y, [&](auto&& from_) {
          REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
        });
        set(i, m[j].has, m[j].v);
      }
      break;
    case 16:
    case 17:
      if (i != j) {
        c.op("assign moving", i, j);
        bool same = m[i].has == m[j].has;
        REQM(&(x = std::move(y)) == &x, "assignment returns itself");
        set(i, m[j].has, m[j].v);
        if constexpr (std::is_trivially_copyable_v<X>) {
        } else if (same) {
          m[j].v = m[j].has ? el::moved_by_assign<T>(m[j].v)
                            : el::moved_by_assign<E>(m[j].v);
        } else {
          m[j].v = moved_c(m[j]);
        }
      }
      break;
    case 18:
    case 19: {
      c.op("assign rvalue", i, v);
      T t = tr<T>::make(v);
      bool had = m[i].has;
      REQM(&(x = std::move(t)) == &x, "assignment returns itself");
      set(i, true, v);
      REQM(tr<T>::get(t)
               == (had ? el::moved_by_assign<T>(v)
                       : el::moved_by_construct<T>(v)),
           "must move");
      break;
    }
    case 20:
      if constexpr (TC) {
        c.op("assign lvalue", i, v);
        T t = tr<T>::make(v);
        el::copy_source(c, t, [&](auto&& from_) {
          x = EL_FWD(from_);
        });
        set(i, true, v);
        REQM(tr<T>::get(t) == v, "source of a copy changed");
      }
      break;
    case 21: {
      c.op("assign convertible value", i, v);
      auto sv = tr<T>::src(v);
      if (c.chance(1, 2)) {
        el::copy_source(c, sv, [&](auto&& from_) { x = EL_FWD(from_); });
        REQM(tr<T>::src_get(sv) == v, "source of a copy changed");
      } else {
        x = std::move(sv);
        REQM(tr<T>::src_get(sv) == tr<T>::src_moved(v), "must move");
      }
      set(i, true, v);
      break;
    }
    case 22:
    case 23: {
      c.op("assign unexpected", i, v);
      UE u(tr<E>::make(v));
      bool had = !m[i].has;
      if (c.chance(1, 2)) {
        REQM(&(x = std::move(u)) == &x, "assignment returns itself");
        set(i, false, v);
        REQM(tr<E>::get(u.error())
                 == (had ? el::moved_by_assign<E>(v)
                         : el::moved_by_construct<E>(v)),
             "must move");
      } else if constexpr (EC) {
        el::copy_source(c, u, [&](auto&& from_) {
          REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
        });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == v, "source of a copy changed");
      }
      break;
    }
    case 24: {
      c.op("assign convertible unexpected", i, v);
      US u(tr<E>::src(v));
      if (c.chance(1, 2)) {
        x = std::move(u);
        REQM(tr<E>::src_get(u.error()) == tr<E>::src_moved(v), "must move");
      } else {
        el::copy_source(c, u, [&](auto&& from_) { x = EL_FWD(from_); });
        REQM(tr<E>::src_get(u.error()) == v, "source of a copy changed");
      }
      set(i, false, v);
      break;
    }
    case 25: // through a converting construction
      c.op("assign convertible expected", i, k);
      {
        X t(std::as_const(z));
        x = std::move(t);
        set(i, ms[k].has, ms[k].v);
      }
      break;
    // ------------------------------------------------ emplace and swap
    case 26:
    case 27:
      if constexpr (std::is_nothrow_move_constructible_v<T>) {
        c.op("emplace", i, v);
        T t = tr<T>::make(v);
        T* r = &x.emplace(std::move(t));
        set(i, true, v);
        REQM(r == &*x, "emplace returns the value");
        if constexpr (requires(X q) { q.emplace({ 1, 2, 3 }, v); }) {
          if (c.chance(1, 2)) {
            r = &x.emplace({ 1, 2, 3 }, v);
            set(i, true, tr<T>::list3(v));
            REQM(r == &*x, "emplace returns the value");
          }
        }
      }
      break;
    case 28:
    case 29:
    case 30:
      c.op("swap", i, j);
      if (c.chance(1, 2)) {
        x.swap(y);
      } else {
        using std::swap;
        swap(x, y);
      }
      switches += m[i].has != m[j].has;
      std::swap(m[i], m[j]);
      break;
    // ------------------------------------------------ source slots
    case 31: {
      bool has = c.chance(1, 2);
      c.op("source", k, has, v);
      if (has) {
        s[k].rebuild([&](void* p) { new (p) Z(tr<T>::src(v)); });
      } else {
        s[k].rebuild([&](void* p) { new (p) Z(fi::unexpect, tr<E>::src(v)); });
      }
      ms[k] = { has, v };
      break;
    }
    // ------------------------------------------------ observation
    case 32:
      c.op("value", i);
      value(i);
      break;
    case 33:
      access(i);
      break;
    case 34:
      fallbacks(i, v);
      break;
    case 35:
    case 36:
      chain_value(i);
      break;
    case 37:
    case 38:
      chain_error(i, v);
      break;
    default:
      if constexpr (Copy) {
        c.op("self copy assign", i);
        auto& alias = x;
        x = alias;
      }
    }
  }

  template <typename F>
  void checked(std::size_t i, F&& f)
  {
    bool threw = false;
    try {
      f();
    } catch (const fi::bad_expected_access<E>& e) {
      threw = true;
      REQM(!m[i].has, "value() must not throw when there is a value");
      REQM(tr<E>::get(e.error()) == m[i].v, "the exception carries the error");
      REQM(std::string(static_cast<const std::exception&>(e).what())
               == "bad expected access",
           "message");
      const fi::bad_expected_access<void>& base = e;
      (void)base;
    }
    REQM(threw == !m[i].has, "value() throws exactly when errored");
  }
  void value(std::size_t i)
  {
    X& x = o[i].get();
    const X& cx = x;
    if constexpr (EC) {
      checked(i, [&] { REQ(&x.value() == &*x); });
      checked(i, [&] { REQ(&cx.value() == &*x); });
      checked(i, [&] {
        const T&& r = std::move(cx).value();
        REQ(&r == &*x);
      });
    }
    checked(i, [&] {
      T&& r = std::move(x).value();
      REQ(&r == &*x);
    });
    if (!m[i].has) {
      m[i].v = el::moved_by_construct<E>(m[i].v);
    }
  }
  void access(std::size_t i)
  {
    X& x = o[i].get();
    const X& cx = x;
    c.op("access", i);
    if (m[i].has) {
      REQ(&*x == x.operator->() && &*cx == cx.operator->() && &*x == &*cx);
      T&& r = *std::move(x);
      const T&& cr = *std::move(cx);
      REQ(&r == &*x && &cr == &*x);
      if (c.chance(1, 2)) {
        auto old = m[i].v;
        m[i].v = moved_c(m[i]);
        T t = c.chance(1, 2) ? T(*std::move(x)) : T(std::move(x).value());
        REQM(tr<T>::get(t) == old, "moved-out value");
      }
    } else {
      REQ(&x.error() == &cx.error());
      E&& r = std::move(x).error();
      const E&& cr = std::move(cx).error();
      REQ(&r == &x.error() && &cr == &x.error());
      if (c.chance(1, 2)) {
        auto old = m[i].v;
        m[i].v = moved_c(m[i]);
        E t(std::move(x).error());
        REQM(tr<E>::get(t) == old, "moved-out error");
      }
    }
  }
  void fallbacks(std::size_t i, long v)
  {
    X& x = o[i].get();
    auto how = c.below(6);
    c.op("fallback", i, v, how);
    long want_v = m[i].has ? m[i].v : v;
    long want_e = m[i].has ? v : m[i].v;
    switch (how) {
    case 0:
      if constexpr (TC) {
        T t = tr<T>::make(v);
        el::copy_source(c, x, [&](auto&& self_) {
          el::copy_source(c, t, [&](auto&& def_) {
            T r = EL_FWD(self_).value_or(EL_FWD(def_));
            REQM(tr<T>::get(r) == want_v, "value_or");
          });
        });
        REQM(tr<T>::get(t) == v, "default changed");
      }
      break;
    case 1: {
      T t = tr<T>::make(v);
      T r = std::move(x).value_or(std::move(t));
      REQM(tr<T>::get(r) == want_v, "value_or");
      REQM(tr<T>::get(t) == (m[i].has ? v : el::moved_by_construct<T>(v)),
           "default moved exactly when used");
      if (m[i].has) {
        m[i].v = moved_c(m[i]);
      }
      break;
    }
    case 2: {
      T r = std::move(x).value_or(tr<T>::src(v));
      REQM(tr<T>::get(r) == want_v, "value_or");
      if (m[i].has) {
        m[i].v = moved_c(m[i]);
      }
      break;
    }
    case 3:
      if constexpr (EC) {
        E t = tr<E>::make(v);
        el::copy_source(c, x, [&](auto&& self_) {
          el::copy_source(c, t, [&](auto&& def_) {
            E r = EL_FWD(self_).error_or(EL_FWD(def_));
            REQM(tr<E>::get(r) == want_e, "error_or");
          });
        });
        REQM(tr<E>::get(t) == v, "default changed");
      }
      break;
    case 4: {
      E t = tr<E>::make(v);
      E r = std::move(x).error_or(std::move(t));
      REQM(tr<E>::get(r) == want_e, "error_or");
      REQM(tr<E>::get(t) == (m[i].has ? el::moved_by_construct<E>(v) : v),
           "default moved exactly when used");
      if (!m[i].has) {
        m[i].v = moved_c(m[i]);
      }
      break;
    }
    default: {
      E r = std::move(x).error_or(tr<E>::src(v));
      REQM(tr<E>::get(r) == want_e, "error_or");
      if (!m[i].has) {
        m[i].v = moved_c(m[i]);
      }
    }
    }
  }

  // and_then, transform
  void chain_value(std::size_t i)
  {
    X& x = o[i].get();
    auto cat = EC ? static_cast<int>(c.below(4)) : 2;
    auto kind = c.below(5);
    probe<T> p;
    p.consume = c.chance(1, 2);
    c.op("chain value", i, cat, kind, p.consume);
    auto w = m[i];
    auto passed = [&](const auto& r, long value) {
      REQM(r.has_value() == w.has, "alternative passed through");
      if (r.has_value()) {
        if constexpr (requires { value == *r; }) {
          REQM(*r == value, "result");
        }
      } else {
        REQM(tr<E>::get(r.error()) == w.v, "error passed through unchanged");
      }
    };
    as_category<EC>(cat, x, [&](auto&& self) {
      using Self = decltype(self);
      switch (kind) {
      case 0:
        passed(std::forward<Self>(self).transform(std::ref(p)), w.v + 1);
        break;
      case 1:
        passed(std::forward<Self>(self).and_then([&](auto&& t) {
          return fi::expected<long, E>(p(std::forward<decltype(t)>(t)));
        }),
               w.v + 1);
        break;
      case 2: { // the function reports an error of its own
        auto r = std::forward<Self>(self).and_then([&](auto&& t) {
          long q = p(std::forward<decltype(t)>(t));
          return fi::expected<long, E>(fi::unexpect, tr<E>::make(q));
        });
        REQM(!r.has_value(), "and_then with an error result");
        REQM(tr<E>::get(r.error()) == (w.has ? w.v + 1 : w.v),
             "and_then's error");
        break;
      }
      case 3: { // a heap-owning, move-only result
        auto r = std::forward<Self>(self).transform([&](auto&& t) {
          return el::HeapT<7, false>(p(std::forward<decltype(t)>(t)));
        });
        REQM(r.has_value() == w.has, "alternative passed through");
        if (r.has_value()) {
          REQM(r->get() == w.v + 1, "result");
        } else {
          REQM(tr<E>::get(r.error()) == w.v, "error passed through");
        }
        break;
      }
      default: { // a reference result refers, it is not copied
        static long target;
        auto r = std::forward<Self>(self).transform([&](auto&& t) -> long& {
          target = p(std::forward<decltype(t)>(t));
          return target;
        });
        REQM(r.has_value() == w.has, "alternative passed through");
        if (r.has_value()) {
          REQM(&*r == &target, "reference result");
        } else {
          REQM(tr<E>::get(r.error()) == w.v, "error passed through");
        }
      }
      }
    });
    REQM(p.calls == (w.has ? 1 : 0), "function called exactly on a value");
    if (w.has) {
      REQM(p.val == w.v, "function received the value");
      REQM(p.cat == cat, "function received the right value category");
      if (cat == 2 && p.consume) {
        m[i].v = moved_c(w);
      }
    } else if (cat == 2) {
      m[i].v = moved_c(w);
    }
  }

  // or_else, transform_error
  void chain_error(std::size_t i, long v)
  {
    X& x = o[i].get();
    auto cat = TC ? static_cast<int>(c.below(4)) : 2;
    auto kind = c.below(4);
    probe<E> p;
    p.consume = c.chance(1, 2);
    c.op("chain error", i, v, cat, kind, p.consume);
    auto w = m[i];
    as_category<TC>(cat, x, [&](auto&& self) {
      using Self = decltype(self);
      switch (kind) {
      case 0: {
        auto r = std::forward<Self>(self).or_else([&](auto&& t) {
          p(std::forward<decltype(t)>(t));
          return fi::expected<T, long>(tr<T>::make(v));
        });
        REQM(r.has_value(), "or_else recovering");
        REQM(tr<T>::get(*r) == (w.has ? w.v : v), "or_else's value");
        break;
      }
      case 1: {
        auto r = std::forward<Self>(self).or_else([&](auto&& t) {
          return fi::expected<T, long>(fi::unexpect,
                                       p(std::forward<decltype(t)>(t)));
        });
        REQM(r.has_value() == w.has, "or_else failing");
        if (r.has_value()) {
          REQM(tr<T>::get(*r) == w.v, "value passed through unchanged");
        } else {
          REQM(r.error() == w.v + 1, "or_else's error");
        }
        break;
      }
      case 2: {
        auto r = std::forward<Self>(self).transform_error(std::ref(p));
        static_assert(std::is_same_v<decltype(r), fi::expected<T, long>>);
        REQM(r.has_value() == w.has, "transform_error");
        if (r.has_value()) {
          REQM(tr<T>::get(*r) == w.v, "value passed through unchanged");
        } else {
          REQM(r.error() == w.v + 1, "transformed error");
        }
        break;
      }
      default: {
        auto r = std::forward<Self>(self).transform_error([&](auto&& t) {
          return el::HeapT<7, false>(p(std::forward<decltype(t)>(t)));
        });
        REQM(r.has_value() == w.has, "transform_error");
        if (r.has_value()) {
          REQM(tr<T>::get(*r) == w.v, "value passed through unchanged");
        } else {
          REQM(r.error().get() == w.v + 1, "transformed error");
        }
      }
      }
    });
    REQM(p.calls == (w.has ? 0 : 1), "function called exactly on an error");
    if (!w.has) {
      REQM(p.val == w.v, "function received the error");
      REQM(p.cat == cat, "function received the right value category");
      if (cat == 2 && p.consume) {
        m[i].v = moved_c(w);
      }
    } else if (cat == 2) {
      m[i].v = moved_c(w);
    }
  }
};

template <typename T, typename E>
void run_model(pbt::Case& c)
{
  el::reg().reset();
  {
    history<T, E, false> h(c);
    h.verify();
    while (c.more(h.len, 40, 12)) {
      ++h.len;
      h.step();
    }
    c.nontrivial(h.switches >= 2);
    if (h.switches >= 2) {
      c.label("two or more switches");
    }
  }
  if (!el::reg().error.empty()) {
    c.fail("lifetime: " + el::reg().error);
  }
}

template <typename T, typename E, bool Faults>
void run_faults(pbt::Case& c)
{
  el::reg().reset();
  {
    history<T, E, Faults> h(c);
    h.verify();
    h.balance();
    while (c.more(h.len, 40, 12)) {
      ++h.len;
      h.step();
      h.balance();
    }
    c.nontrivial(el::reg().faults > 0 || h.switches >= 2);
    c.label(el::reg().faults > 0 ? "history with a throw" : "no throw");
  }
  if (!el::reg().error.empty()) {
    c.fail("lifetime: " + el::reg().error);
  }
  REQM(el::reg().live.empty(), "payloads left alive at the end");
  REQ_EQ(el::reg().constructed, el::reg().destroyed);
}
}
