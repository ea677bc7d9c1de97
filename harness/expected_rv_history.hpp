#pragma once
// Histories over fitoria::expected<obj&, E> and fitoria::expected<void, E>.
#include "expected_history.hpp"
#include <memory>

namespace erv {
namespace fi = fitoria;
using el::fault;
using el::tr;

struct side {
  long x = 77;
};
struct obj {
  long id;
  long val;
  inline static long copies = 0;
  explicit obj(long i)
      : id(i)
      , val(i * 10)
  {
  }
  obj(const obj& o)
      : id(o.id)
      , val(o.val)
  {
    ++copies;
  }
  obj& operator=(const obj& o)
  {
    id = o.id;
    val = o.val;
    ++copies;
    return *this;
  }
  obj* operator&() // must not be trusted by the library
  {
    return nullptr;
  }
};
struct derived : side, obj {
  using obj::obj;
};

// v: index of the object (reference), ignored (void), or the error's value
struct model {
  bool has = true;
  long v = 0;
  friend bool operator==(const model&, const model&) = default;
};

template <typename V, typename E, bool Faults>
struct history {
  static constexpr bool Ref = !std::is_void_v<V>;
  using X = fi::expected<V, E>;
  using ES = typename tr<E>::Src;
  // convertible sources: expected<derived&, Src> or expected<void, Src>
  using ZV = std::conditional_t<Ref, derived&, void>;
  using Z = fi::expected<ZV, ES>;
  using UE = fi::unexpected<E>;
  using US = fi::unexpected<ES>;
  static constexpr bool EC = tr<E>::copyable;

  pbt::Case& c;
  std::array<derived, 4> pool { derived(0), derived(1), derived(2),
                                derived(3) };
  std::array<long, 4> vals { 0, 10, 20, 30 };
  std::array<slot<X>, 3> o;
  std::array<model, 3> m;
  std::array<slot<Z>, 2> s;
  std::array<model, 2> ms;
  long next = 1;
  int switches = 0;
  std::size_t len = 0;

  explicit history(pbt::Case& c)
      : c(c)
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      fallback(i);
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      source(i, true, 0);
    }
    obj::copies = 0;
  }
  void fallback(std::size_t i)
  {
    if constexpr (Ref) {
      o[i].rebuild([&](void* p) { new (p) X(static_cast<obj&>(pool[0])); });
    } else {
      o[i].make();
    }
    m[i] = { true, 0 };
  }
  void source(std::size_t k, bool has, long v)
  {
    if (!has) {
      s[k].rebuild([&](void* p) { new (p) Z(fi::unexpect, tr<E>::src(v)); });
    } else if constexpr (Ref) {
      s[k].rebuild([&](void* p) { new (p) Z(pool[v]); });
    } else {
      s[k].make();
      v = 0;
    }
    ms[k] = { has, v };
  }
  template <typename Y>
  long got(Y& x)
  {
    if (x.has_value()) {
      if constexpr (Ref) {
        for (std::size_t q = 0; q < pool.size(); ++q) {
          if (static_cast<const volatile obj*>(std::addressof(*x))
              == static_cast<const volatile obj*>(
                  std::addressof(static_cast<obj&>(pool[q])))) {
            return static_cast<long>(q);
          }
        }
        return -4444; // refers to something else
      } else {
        return 0;
      }
    }
    if constexpr (std::is_same_v<typename Y::error_type, E>) {
      return tr<E>::get(x.error());
    } else {
      return tr<E>::src_get(x.error());
    }
  }
  long moved_c(const model& w) const
  {
    return w.has ? w.v : el::moved_by_construct<E>(w.v);
  }
  void set(std::size_t i, bool has, long v)
  {
    switches += m[i].has != has;
    m[i] = { has, v };
  }
  void verify()
  {
    for (std::size_t i = 0; i < o.size(); ++i) {
      X& x = o[i].get();
      REQM(x.has_value() == m[i].has && static_cast<bool>(x) == m[i].has,
           "slot " + std::to_string(i)
               + (m[i].has ? " should be a success" : " should be an error"));
      REQM(got(x) == m[i].v,
           "slot " + std::to_string(i) + " holds " + std::to_string(got(x))
               + ", model says " + std::to_string(m[i].v));
      if constexpr (Ref) {
        if (m[i].has) {
          REQ(x.operator->() == std::addressof(*x));
        }
      }
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
      Z& x = s[i].get();
      REQM(x.has_value() == ms[i].has && got(x) == ms[i].v,
           "source expected " + std::to_string(i));
    }
    for (std::size_t i = 0; i < pool.size(); ++i) {
      REQM(pool[i].id == static_cast<long>(i) && pool[i].val == vals[i]
               && pool[i].x == 77,
           "a referred object was modified");
    }
    REQM(obj::copies == 0, "a referred object was copied");
    if (!el::reg().error.empty()) {
      c.fail("lifetime: " + el::reg().error);
    }
  }
  void balance()
  {
    if constexpr (requires(E e) { e.registered(); }) {
      std::size_t errs = 0, le = 0;
      for (auto& x : o) {
        errs += !x.get().has_value();
      }
      for (auto& e : el::reg().live) {
        le += e.second == 2;
      }
      REQM(le == errs, "live errors vs held errors");
    }
  }
  void step()
  {
    auto i = c.below(3), j = c.below(3), k = c.below(2);
    auto what = c.below(32);
    if constexpr (Faults) {
      el::reg().fault_in = c.chance(2, 5) ? static_cast<long>(c.below(4)) : -1;
    }
    auto before = m;
    try {
      apply(what, i, j, k);
      el::reg().fault_in = -1;
    } catch (const fault&) {
      el::reg().fault_in = -1;
      c.note("threw");
      c.label("operation threw");
      for (std::size_t q = 0; q < o.size(); ++q) {
        if (!o[q].built) {
          fallback(q);
        } else {
          X& x = o[q].get();
          REQM(x.has_value() == before[q].has,
               "an operation that threw switched slot " + std::to_string(q)
                   + " to the other alternative");
          if (before[q].has) {
            REQM(got(x) == before[q].v,
                 "an operation that threw changed the reference of slot "
                     + std::to_string(q));
          }
        }
        m[q] = { o[q].get().has_value(), got(o[q].get()) };
      }
      for (std::size_t q = 0; q < s.size(); ++q) {
        ms[q] = { s[q].get().has_value(), got(s[q].get()) };
      }
    }
    verify();
  }

  void apply(std::size_t what, std::size_t i, std::size_t j, std::size_t k)
  {
    X& x = o[i].get();
    X& y = o[j].get();
    Z& z = s[k].get();
    auto v = next++;
    auto t = static_cast<long>(c.below(4));
    derived& target = pool[t];
    obj& base = target;
    switch (what) {
    case 0:
    case 1:
      if constexpr (Ref) {
        c.op("construct bound", i, t);
        switch (c.below(3)) {
        case 0:
          o[i].rebuild([&](void* p) { new (p) X(base); });
          break;
        case 1:
          o[i].rebuild([&](void* p) { new (p) X(target); });
          break;
        default:
          o[i].rebuild([&](void* p) { new (p) X(std::in_place, base); });
        }
        set(i, true, t);
      } else {
        c.op("construct success", i);
        if (c.chance(1, 2)) {
          o[i].make();
        } else {
          o[i].rebuild([&](void* p) { new (p) X(std::in_place); });
        }
        set(i, true, 0);
      }
      break;
    case 2:
    case 3:
      c.op("construct error in place", i, v);
      if constexpr (tr<E>::args) {
        if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) { new (p) X(fi::unexpect, v, 5L); });
          set(i, false, tr<E>::multi(v, 5));
        } else {
          o[i].rebuild(
              [&](void* p) { new (p) X(fi::unexpect, { 1, 2, 3 }, v); });
          set(i, false, tr<E>::list3(v));
        }
      } else {
        o[i].rebuild([&](void* p) { new (p) X(fi::unexpect, v); });
        set(i, false, v);
      }
      break;
    case 4:
    case 5: {
      c.op("construct from unexpected", i, v);
      UE u(tr<E>::make(v));
      if (c.chance(1, 2)) {
        o[i].rebuild([&](void* p) { new (p) X(std::move(u)); });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == el::moved_by_construct<E>(v),
             "must move");
      } else if constexpr (EC) {
        el::copy_source(c, u, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
        });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == v, "source of a copy changed");
      }
      break;
    }
    case 6: {
      c.op("construct from convertible unexpected", i, v);
      US u(tr<E>::src(v));
      if (c.chance(1, 2)) {
        o[i].rebuild([&](void* p) { new (p) X(std::move(u)); });
        REQM(tr<E>::src_get(u.error()) == tr<E>::src_moved(v), "must move");
      } else {
        el::copy_source(c, u, [&](auto&& from_) {
          o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
        });
        REQM(tr<E>::src_get(u.error()) == v, "source of a copy changed");
      }
      set(i, false, v);
      break;
    }
    case 7:
      if constexpr (EC) {
        if (i != j) {
          c.op("construct copy of", i, j);
          el::copy_source(c, y, [&](auto&& from_) {
            o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
          });
          set(i, m[j].has, m[j].v);
        }
      }
      break;
    case 8:
      if (i != j) {
        c.op("construct moving", i, j);
        o[i].rebuild([&](void* p) { new (p) X(std::move(y)); });
        set(i, m[j].has, m[j].v);
        m[j].v = moved_c(m[j]);
      }
      break;
    case 9:
    case 10:
      if constexpr (std::is_constructible_v<X, const Z&>) {
        c.op("construct from convertible expected", i, k);
        if (c.chance(1, 2)) {
          o[i].rebuild([&](void* p) { new (p) X(z); });
        } else {
          el::copy_source(c, z, [&](auto&& from_) {
            o[i].rebuild([&](void* p) { new (p) X(EL_FWD(from_)); });
          });
        }
        set(i, ms[k].has, ms[k].v);
      }
      break;
    case 11:
      if constexpr (!Ref) {
        c.op("construct from moved convertible expected", i, k);
        o[i].rebuild([&](void* p) { new (p) X(std::move(z)); });
        set(i, ms[k].has, ms[k].v);
        if (!ms[k].has) {
          ms[k].v = tr<E>::src_moved(ms[k].v);
        }
      }
      break;
    case 12:
    case 13:
    case 14:
      if constexpr (EC) {
        c.op("assign copy", i, j);
        el::copy_source(c, y, [&](auto&& from_) {
          REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
        });
        set(i, m[j].has, m[j].v);
      }
      break;
    case 15:
    case 16:
      if (i != j) {
        c.op("assign moving", i, j);
        bool same = m[i].has == m[j].has;
        REQM(&(x = std::move(y)) == &x, "assignment returns itself");
        set(i, m[j].has, m[j].v);
        if constexpr (!std::is_trivially_copyable_v<X>) {
          if (!m[j].has) {
            m[j].v = same ? el::moved_by_assign<E>(m[j].v) : moved_c(m[j]);
          }
        }
      }
      break;
    case 17:
    case 18:
      if constexpr (Ref) {
        c.op("bind", i, t);
        if (c.chance(1, 2)) {
          REQM(&(x = base) == &x, "assignment returns itself");
        } else {
          REQM(&(x = target) == &x, "assignment returns itself");
        }
        set(i, true, t);
      }
      break;
    case 19:
      c.op("emplace", i, t);
      if constexpr (Ref) {
        obj& r = x.emplace(base);
        REQ(std::addressof(r) == std::addressof(base));
        set(i, true, t);
      } else {
        x.emplace();
        set(i, true, 0);
      }
      break;
    case 20:
    case 21: {
      c.op("assign unexpected", i, v);
      UE u(tr<E>::make(v));
      bool had = !m[i].has;
      if (c.chance(1, 2)) {
        REQM(&(x = std::move(u)) == &x, "assignment returns itself");
        set(i, false, v);
        REQM(tr<E>::get(u.error())
                 == (had ? el::moved_by_assign<E>(v)
                         : el::moved_by_construct<E>(v)),
             "must move");
      } else if constexpr (EC) {
        el::copy_source(c, u, [&](auto&& from_) {
          REQM(&(x = EL_FWD(from_)) == &x, "assignment returns itself");
        });
        set(i, false, v);
        REQM(tr<E>::get(u.error()) == v, "source of a copy changed");
      }
      break;
    }
    case 22: {
      c.op("assign convertible unexpected", i, v);
      US u(tr<E>::src(v));
      if (c.chance(1, 2)) {
        x = std::move(u);
        REQM(tr<E>::src_get(u.error()) == tr<E>::src_moved(v), "must move");
      } else {
        el::copy_source(c, u, [&](auto&& from_) { x = EL_FWD(from_); });
        REQM(tr<E>::src_get(u.error()) == v, "source of a copy changed");
      }
      set(i, false, v);
      break;
    }
    case 23:
    case 24:
    case 25:
      c.op("swap", i, j);
      if (c.chance(1, 2)) {
        x.swap(y);
      } else {
        swap(x, y);
      }
      switches += m[i].has != m[j].has;
      std::swap(m[i], m[j]);
      break;
    case 26: {
      bool has = c.chance(1, 2);
      c.op("source", k, has, has ? t : v);
      source(k, has, has ? t : v);
      break;
    }
    case 27:
      c.op("value", i);
      value(i, t);
      break;
    case 28:
      fallbacks(i, v);
      break;
    case 29:
      chain_value(i, v);
      break;
    case 30:
      chain_error(i, t);
      break;
    default:
      if constexpr (EC) {
        c.op("self copy assign", i);
        auto& alias = x;
        x = alias;
      }
    }
  }

  template <typename F>
  void checked(std::size_t i, F&& f)
  {
    bool threw = false;
    try {
      f();
    } catch (const fi::bad_expected_access<E>& e) {
      threw = true;
      REQM(!m[i].has, "value() must not throw on success");
      REQM(tr<E>::get(e.error()) == m[i].v, "the exception carries the error");
    }
    REQM(threw == !m[i].has, "value() throws exactly when errored");
  }
  void value(std::size_t i, long t)
  {
    X& x = o[i].get();
    if constexpr (Ref) {
      if constexpr (EC) {
        checked(i, [&] {
          REQ(std::addressof(std::as_const(x).value()) == std::addressof(*x));
        });
      }
      if (m[i].has) { // writing through reaches the object
        long w = 100 + t;
        (c.chance(1, 2) ? (*x).val : std::as_const(x)->val) = w;
        vals[m[i].v] = w;
      }
    } else {
      if constexpr (EC) {
        checked(i, [&] { std::as_const(x).value(); });
      }
      if (c.chance(1, 2)) {
        checked(i, [&] { std::move(x).value(); });
        if (!m[i].has) {
          m[i].v = el::moved_by_construct<E>(m[i].v);
        }
      }
      if (m[i].has) {
        *x;
        x.operator->();
      }
    }
    if (!m[i].has) {
      E&& r = std::move(x).error();
      const E&& cr = std::move(std::as_const(x)).error();
      REQ(&r == &x.error() && &cr == &x.error()
          && &std::as_const(x).error() == &x.error());
    }
  }
  void fallbacks(std::size_t i, long v)
  {
    X& x = o[i].get();
    auto how = c.below(4);
    c.op("fallback", i, v, how);
    long want_e = m[i].has ? v : m[i].v;
    switch (how) {
    case 0:
      if constexpr (Ref) {
        obj def(900);
        auto before = obj::copies;
        auto any = [&](auto&& self_) {
          switch (c.below(3)) {
          case 0:
            return EL_FWD(self_).value_or(def);
          case 1:
            return EL_FWD(self_).value_or(std::as_const(def));
          default:
            return EL_FWD(self_).value_or(std::move(std::as_const(def)));
          }
        };
        obj r = c.chance(1, 2) ? any(x) : any(std::as_const(x));
        REQM(r.id == (m[i].has ? m[i].v : 900), "value_or");
        REQM(r.val == (m[i].has ? vals[m[i].v] : 9000), "value_or");
        REQM(def.id == 900, "default changed");
        obj::copies = before;
      }
      break;
    case 1:
      if constexpr (EC) {
        E t = tr<E>::make(v);
        el::copy_source(c, x, [&](auto&& self_) {
          el::copy_source(c, t, [&](auto&& def_) {
            E r = EL_FWD(self_).error_or(EL_FWD(def_));
            REQM(tr<E>::get(r) == want_e, "error_or");
          });
        });
        REQM(tr<E>::get(t) == v, "default changed");
      }
      break;
    case 2: {
      E t = tr<E>::make(v);
      E r = std::move(x).error_or(std::move(t));
      REQM(tr<E>::get(r) == want_e, "error_or");
      REQM(tr<E>::get(t) == (m[i].has ? el::moved_by_construct<E>(v) : v),
           "default moved exactly when used");
      m[i].v = moved_c(m[i]);
      break;
    }
    default: {
      E r = std::move(x).error_or(tr<E>::src(v));
      REQM(tr<E>::get(r) == want_e, "error_or");
      m[i].v = moved_c(m[i]);
    }
    }
  }
  template <typename F>
  static auto adapt(F f) // a function of (obj&) or of nothing
  {
    if constexpr (Ref) {
      return [f](obj& q) mutable { return f(std::addressof(q)); };
    } else {
      return [f]() mutable { return f(nullptr); };
    }
  }
  void chain_value(std::size_t i, long v)
  {
    X& x = o[i].get();
    auto cat = EC ? static_cast<int>(c.below(4)) : 2;
    auto kind = c.below(3);
    c.op("chain value", i, v, cat, kind);
    int calls = 0;
    obj* seen = nullptr;
    auto w = m[i];
    eh::as_category<EC>(cat, x, [&](auto&& self) {
      using Self = decltype(self);
      auto hit = [&](obj* q) {
        ++calls;
        seen = q;
      };
      auto common = [&](const auto& r, bool engaged) {
        REQM(r.has_value() == (w.has && engaged), "alternative");
        if (!w.has) {
          REQM(tr<E>::get(r.error()) == w.v, "error passed through unchanged");
        }
      };
      switch (kind) {
      case 0: {
        auto r = std::forward<Self>(self).transform(adapt([&](obj* q) {
          hit(q);
          return v;
        }));
        common(r, true);
        if (r.has_value()) {
          REQ_EQ(*r, v);
        }
        break;
      }
      case 1: {
        auto r = std::forward<Self>(self).and_then(adapt([&](obj* q) {
          hit(q);
          return fi::expected<long, E>(v);
        }));
        common(r, true);
        if (r.has_value()) {
          REQ_EQ(*r, v);
        }
        break;
      }
      default: {
        auto r = std::forward<Self>(self).and_then(adapt([&](obj* q) {
          hit(q);
          return fi::expected<V, E>(fi::unexpect, tr<E>::make(v));
        }));
        common(r, false);
        if (w.has) {
          REQM(tr<E>::get(r.error()) == v, "and_then's error");
        }
      }
      }
    });
    REQM(calls == (w.has ? 1 : 0), "function called exactly on success");
    if constexpr (Ref) {
      if (w.has) {
        REQM(seen == std::addressof(static_cast<obj&>(pool[w.v])),
             "function received the referred object");
      }
    }
    if (cat == 2) {
      m[i].v = moved_c(w);
    }
  }
  void chain_error(std::size_t i, long t)
  {
    X& x = o[i].get();
    auto cat = static_cast<int>(c.below(4));
    auto kind = c.below(3);
    eh::probe<E> p;
    p.consume = c.chance(1, 2);
    c.op("chain error", i, t, cat, kind, p.consume);
    auto w = m[i];
    eh::as_category<true>(cat, x, [&](auto&& self) {
      using Self = decltype(self);
      using G = fi::expected<V, long>;
      auto same_target = [&](auto& r, long want) {
        if constexpr (Ref) {
          REQM(std::addressof(*r)
                   == std::addressof(static_cast<obj&>(pool[want])),
               "the reference passed through");
        }
      };
      switch (kind) {
      case 0: {
        auto r = std::forward<Self>(self).or_else([&](auto&& e) {
          p(std::forward<decltype(e)>(e));
          if constexpr (Ref) {
            return G(static_cast<obj&>(pool[t]));
          } else {
            return G();
          }
        });
        REQM(r.has_value(), "or_else recovering");
        same_target(r, w.has ? w.v : t);
        break;
      }
      case 1: {
        auto r = std::forward<Self>(self).or_else([&](auto&& e) {
          return G(fi::unexpect, p(std::forward<decltype(e)>(e)));
        });
        REQM(r.has_value() == w.has, "or_else failing");
        if (w.has) {
          same_target(r, w.v);
        } else {
          REQM(r.error() == w.v + 1, "or_else's error");
        }
        break;
      }
      default: {
        // (an expected reference's transform_error yields a value)
        auto before = obj::copies;
        auto r = std::forward<Self>(self).transform_error(std::ref(p));
        obj::copies = before;
        REQM(r.has_value() == w.has, "transform_error");
        if (w.has) {
          if constexpr (Ref) {
            REQM((*r).id == w.v && (*r).val == vals[w.v],
                 "value passed through");
          }
        } else {
          REQM(r.error() == w.v + 1, "transformed error");
        }
      }
      }
    });
    REQM(p.calls == (w.has ? 0 : 1), "function called exactly on an error");
    if (!w.has) {
      REQM(p.val == w.v, "function received the error");
      REQM(p.cat == cat, "function received the right value category");
      if (cat == 2 && p.consume) {
        m[i].v = moved_c(w);
      }
    }
  }
};

template <typename V, typename E, bool Faults, bool Lifetimes>
void run(pbt::Case& c)
{
  el::reg().reset();
  {
    history<V, E, Faults> h(c);
    h.verify();
    while (c.more(h.len, 40, 12)) {
      ++h.len;
      h.step();
      h.balance();
    }
    c.nontrivial(el::reg().faults > 0 || h.switches >= 2);
    if (Faults) {
      c.label(el::reg().faults > 0 ? "history with a throw" : "no throw");
    } else if (h.switches >= 2) {
      c.label("two or more switches");
    }
  }
  if (!el::reg().error.empty()) {
    c.fail("lifetime: " + el::reg().error);
  }
  REQM(el::reg().live.empty(), "payloads left alive at the end");
}
}
