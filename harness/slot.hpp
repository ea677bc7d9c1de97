#pragma once
#include <cstring>
#include <new>

// Storage pre-filled with a pattern: forgetting to initialise a member shows.
template <typename O>
struct slot {
  alignas(O) unsigned char buf[sizeof(O)];
  bool built = false;
  slot()
  {
    std::memset(buf, 0xa5, sizeof buf);
  }
  slot(const slot&) = delete;
  O& get()
  {
    return *std::launder(reinterpret_cast<O*>(buf));
  }
  template <typename F>
  void rebuild(F&& f) // f(void*) placement-constructs
  {
    kill();
    f(static_cast<void*>(buf));
    built = true;
  }
  void make() // value-initialised
  {
    rebuild([](void* p) { new (p) O(); });
  }
  void kill()
  {
    if (built) {
      built = false;
      get().~O();
    }
    std::memset(buf, 0xa5, sizeof buf);
  }
  ~slot()
  {
    kill();
  }
};
