#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
namespace {
  std::vector<Section>& sections()
  {
    static std::vector<Section> s;
    return s;
  }
  const char* g_rule = "";
  void (*g_before)() = nullptr;
  void (*g_after)(Case&) = nullptr;

  constexpr std::size_t kDescMax = 1 << 16;
  struct Shared {
    volatile u64 section, index, seed;
    volatile int stage; // 0 idle, 1 running, 2 failed by check
    char msg[4096];
    char desc[kDescMax];
    volatile u64 desc_len;
    volatile u64 tape_len;
    u64 tape[1 << 17];
  };
  Shared* g_sh = nullptr;
  bool g_publish_desc = false;

  // in forked children every draw is mirrored into shared memory, so that the
  // tape of a crashing case is known
  inline void mirror(std::size_t pos, u64 v)
  {
    if (g_publish_desc && pos < sizeof(g_sh->tape) / 8) {
      g_sh->tape[pos] = v;
      g_sh->tape_len = pos + 1;
    }
  }

  void publish_msg(const std::string& m)
  {
    if (g_sh) {
      std::size_t n = std::min(m.size(), sizeof(g_sh->msg) - 1);
      memcpy(g_sh->msg, m.data(), n);
      g_sh->msg[n] = 0;
    }
  }
}

Reg::Reg(const char* name, void (*fn)(Case&), u64 quick, u64 thorough,
         const char* known)
{
  sections().push_back({ name, fn, quick, thorough, known });
}
void set_rule(const char* r)
{
  g_rule = r;
}
void set_hooks(void (*b)(), void (*a)(Case&))
{
  g_before = b;
  g_after = a;
}

std::string quote(std::string_view s)
{
  static const char* hex = "0123456789abcdef";
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch >= 0x20 && ch < 0x7f) {
      o += static_cast<char>(ch);
    } else {
      o += "\\x";
      o += hex[ch >> 4];
      o += hex[ch & 15];
    }
  }
  return o + "\"";
}

u64 Case::raw()
{
  u64 v;
  if (replay_) {
    v = pos_ < tape_->size() ? (*tape_)[pos_] : 0;
  } else {
    rng_ += 0x9e3779b97f4a7c15ull;
    v = mix(rng_);
  }
  mirror(pos_, v);
  ++pos_;
  return v;
}

u64 Case::below(u64 n)
{
  if (n == 0) {
    return raw(); // full range
  }
  u64 v;
  if (replay_) {
    v = pos_ < tape_->size() ? (*tape_)[pos_] % n : 0;
  } else {
    rng_ += 0x9e3779b97f4a7c15ull;
    v = static_cast<u64>(
        (static_cast<unsigned __int128>(mix(rng_)) * n) >> 64);
  }
  mirror(pos_, v);
  ++pos_;
  return v;
}

std::size_t Case::weighted(std::initializer_list<unsigned> w)
{
  u64 t = 0;
  for (auto x : w) {
    t += x;
  }
  u64 v = below(t);
  std::size_t i = 0;
  for (auto x : w) {
    if (v < x) {
      return i;
    }
    v -= x;
    ++i;
  }
  return 0;
}

bool Case::more(std::size_t n, std::size_t max, unsigned avg)
{
  if (n >= max) {
    return false;
  }
  return below(avg + 1) != 0;
}

std::size_t Case::count(std::size_t max)
{
  std::size_t n = 0;
  while (more(n, max, 4)) {
    ++n;
  }
  return n;
}

std::string Case::str(std::string_view alphabet, std::size_t max, unsigned avg)
{
  std::string s;
  while (more(s.size(), max, avg)) {
    s += alphabet[below(alphabet.size())];
  }
  return s;
}
std::string Case::bytes(std::size_t max, unsigned avg)
{
  std::string s;
  while (more(s.size(), max, avg)) {
    s += static_cast<char>(below(256));
  }
  return s;
}
std::string Case::ascii(std::size_t max, unsigned avg)
{
  std::string s;
  while (more(s.size(), max, avg)) {
    s += static_cast<char>(0x20 + (below(95) + 'a' - 0x20) % 95);
  }
  return s;
}

void Case::h(const void* p, std::size_t n)
{
  auto* b = static_cast<const unsigned char*>(p);
  u64 x = hash_ ^ (n * 0x9e3779b97f4a7c15ull);
  while (n >= 8) {
    u64 w;
    memcpy(&w, b, 8);
    x = (x ^ w) * 0xff51afd7ed558ccdull;
    x ^= x >> 32;
    b += 8;
    n -= 8;
  }
  u64 w = 0;
  memcpy(&w, b, n);
  x = (x ^ w) * 0xc4ceb9fe1a85ec53ull;
  x ^= x >> 29;
  hash_ = x;
}

void Case::desc(std::string_view s)
{
  if (desc_.size() < kDescMax - 16) {
    desc_ += s.substr(0, kDescMax - 16 - desc_.size());
  }
  if (g_publish_desc && g_sh) {
    std::size_t from = g_sh->desc_len;
    std::size_t n = desc_.size() - from;
    memcpy(g_sh->desc + from, desc_.data() + from, n);
    g_sh->desc_len = desc_.size();
  }
}

void Case::in(std::string_view name, std::string_view v)
{
  h(v.data(), v.size());
  if (verbose) {
    if (name.empty()) {
      desc(" " + quote(v));
    } else {
      desc(" " + std::string(name) + "=" + quote(v));
    }
  }
}
void Case::in_int(std::string_view name, i64 v, bool is_unsigned)
{
  h(&v, sizeof v);
  if (verbose) {
    auto t = is_unsigned ? std::to_string(static_cast<u64>(v))
                         : std::to_string(v);
    desc(name.empty() ? " " + t : " " + std::string(name) + "=" + t);
  }
}
void Case::in(std::string_view name, double v)
{
  h(&v, sizeof v);
  if (verbose) {
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", v);
    desc((name.empty() ? " " : " " + std::string(name) + "=")
         + std::string(buf));
  }
}
void Case::step_text(std::string_view name)
{
  h(name.data(), name.size());
  if (verbose) {
    desc("; " + std::string(name));
  }
}
void Case::note(std::string_view t)
{
  if (verbose) {
    desc(" [" + std::string(t) + "]");
  }
}
void Case::label(const char* l)
{
  case_labels_.push_back(l);
}
void Case::fail(std::string msg)
{
  throw failure { std::move(msg) };
}
void Case::fail_at(std::string msg, const char* file, int line)
{
  std::string f = file;
  if (auto p = f.find_last_of('/'); p != std::string::npos) {
    f = f.substr(p + 1);
  }
  throw failure { f + ":" + std::to_string(line) + ": " + msg };
}
void Case::check(bool ok, const char* expr, const char* file, int line)
{
  if (!ok) {
    fail_at(expr, file, line);
  }
}

struct Case::Engine {
  struct Stats {
    u64 evaluations = 0, discarded = 0;
    std::vector<u64> nontrivial;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
  };

  static void arm_watchdog(unsigned secs)
  {
    struct itimerval tv { };
    tv.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &tv, nullptr); // CPU time; default action kills
  }

  // Runs one case. Returns true when it passed; false: msg filled in.
  static bool run(Case& c, const Section& s, std::string& msg, bool& discarded)
  {
    discarded = false;
    try {
      if (g_before) {
        g_before();
      }
      s.fn(c);
      if (g_after) {
        g_after(c);
      }
      return true;
    } catch (const failure& f) {
      msg = f.msg;
    } catch (const discard&) {
      discarded = true;
      return true;
    } catch (const std::exception& e) {
      msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      msg = "unexpected exception of unknown type";
    }
    return false;
  }

  static u64 case_seed(u64 seed, std::size_t section, u64 index)
  {
    return mix(mix(seed * 1000003 + section) ^ mix(index + 0x1234567));
  }

  struct Out {
    bool failed = false;
    std::string msg, desc;
    std::vector<u64> tape;
  };

  // ---- worker --------------------------------------------------------------
  static int worker(u64 seed, bool thorough, unsigned shard, unsigned shards,
                    u64 scale_num, u64 scale_den, double budget, FILE* out,
                    const std::string& only, const std::string& hashfile)
  {
    bool failed = false;
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] {
      return std::chrono::duration<double>(std::chrono::steady_clock::now()
                                           - t0)
                 .count()
          > budget;
    };
    std::vector<u64> all;
    bool stopped = false;
    for (std::size_t si = 0; si < sections().size(); ++si) {
      auto& s = sections()[si];
      if (s.known || (!only.empty() && only != s.name)) {
        continue;
      }
      Stats st;
      std::size_t want = (thorough ? s.thorough : s.quick) * scale_num
          / scale_den;
      want = std::max<std::size_t>(want, 1);
      u64 n_nontriv = 0;
      for (u64 i = shard; i < want; i += shards) {
        if ((st.evaluations & 63) == 0) {
          arm_watchdog(60);
          if (over()) {
            stopped = true;
            break;
          }
        }
        Case c;
        c.rng_ = case_seed(seed, si, i);
        bool sample = shard == 0 && st.samples.size() < 4
            && st.evaluations < 4000;
        c.verbose = sample;
        g_sh->section = si;
        g_sh->index = i;
        g_sh->seed = c.rng_;
        g_sh->stage = 1;
        std::string msg;
        bool disc;
        if (!run(c, s, msg, disc)) {
          publish_msg(msg);
          g_sh->stage = 2;
          failed = true;
          ++st.evaluations;
          break;
        }
        g_sh->stage = 0;
        ++st.evaluations;
        if (disc) {
          ++st.discarded;
          continue;
        }
        for (auto l : c.case_labels_) {
          ++st.labels[l];
        }
        if (c.nontrivial_) {
          ++n_nontriv;
          all.push_back(mix(c.hash_ ^ (si * 7919)));
          if (sample && c.desc_.size() < 600) {
            st.samples.push_back(c.desc_);
          }
        }
      }
      fprintf(out, "S\t%s\t%llu\t%llu\t%llu\t%llu\n", s.name,
              (unsigned long long)st.evaluations,
              (unsigned long long)st.discarded, (unsigned long long)n_nontriv,
              (unsigned long long)want);
      for (auto& [l, n] : st.labels) {
        fprintf(out, "L\t%s\t%s\t%llu\n", s.name, l.c_str(),
                (unsigned long long)n);
      }
      for (auto& x : st.samples) {
        fprintf(out, "X\t%s\t%s\n", s.name, x.c_str());
      }
      fflush(out);
      if (failed) {
        break;
      }
    }
    if (stopped) {
      fprintf(out, "T\n");
    }
    fclose(out);
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    if (FILE* f = fopen(hashfile.c_str(), "wb")) {
      fwrite(all.data(), 8, all.size(), f);
      fclose(f);
    }
    return failed ? 3 : 0;
  }

  // ---- a failure that needs the cases before it ------------------------------
  // Cases number last-(n-1)*shards ... last of one worker, run in one process.
  static Out sequence(std::size_t si, u64 seed, u64 last, u64 n, u64 shards,
                      bool quiet)
  {
    g_sh->stage = 0;
    g_sh->msg[0] = 0;
    g_sh->desc_len = 0;
    g_sh->tape_len = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      if (quiet) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
      }
      for (u64 k = n; k-- > 0;) {
        arm_watchdog(60);
        Case c;
        if (k == 0) {
          g_publish_desc = true;
          c.verbose = true;
        }
        c.rng_ = case_seed(seed, si, last - k * shards);
        g_sh->stage = 1;
        std::string msg;
        bool disc;
        if (!run(c, sections()[si], msg, disc)) {
          publish_msg(msg);
          g_sh->stage = 2;
          _exit(3);
        }
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Out o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
      o.desc = std::string(g_sh->desc, g_sh->desc_len);
      o.msg = g_sh->stage == 2 ? std::string(g_sh->msg)
                               : std::string("abnormal end");
    }
    return o;
  }

  static int shrink_sequence(std::size_t si, u64 seed, u64 last, u64 shards,
                             const std::string& outfile)
  {
    u64 max = last / shards + 1;
    u64 n = 1;
    Out o;
    for (;; n = std::min(n * 2, max)) {
      o = sequence(si, seed, last, n, shards, true);
      if (o.failed) {
        break;
      }
      if (n == max) {
        return 4;
      }
    }
    for (u64 lo = n / 2; n - lo > 1;) { // fewest predecessors
      u64 mid = lo + (n - lo) / 2;
      Out m = sequence(si, seed, last, mid, shards, true);
      if (m.failed) {
        n = mid;
        o = m;
      } else {
        lo = mid;
      }
    }
    std::ofstream os(outfile);
    os << "section " << sections()[si].name << "\n";
    os << "sequence " << seed << ' ' << last << ' ' << n << ' ' << shards
       << "\n";
    std::replace(o.msg.begin(), o.msg.end(), '\n', ' ');
    os << "# what fails, after " << n - 1
       << " earlier cases in the same process: " << o.msg << "\n";
    os << "# case:" << o.desc << "\n";
    return 0;
  }

  // ---- one case in a forked child -----------------------------------------
  static Out forked(std::size_t si, const std::vector<u64>* tape, u64 seed,
                    bool quiet, unsigned cpu = 20)
  {
    g_sh->stage = 0;
    g_sh->msg[0] = 0;
    g_sh->desc_len = 0;
    g_sh->tape_len = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      if (quiet) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
      }
      arm_watchdog(cpu);
      g_publish_desc = true;
      Case c;
      c.verbose = true;
      if (tape) {
        c.replay_ = true;
        c.tape_ = tape;
      } else {
        c.rng_ = seed;
      }
      g_sh->stage = 1;
      std::string msg;
      bool disc;
      bool ok = run(c, sections()[si], msg, disc);
      if (!ok) {
        publish_msg(msg);
        g_sh->stage = 2;
        _exit(3);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Out o;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) {
      o.desc = std::string(g_sh->desc, g_sh->desc_len);
      if (g_sh->stage == 2) {
        o.msg = g_sh->msg;
      } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        o.msg = "did not finish within its CPU limit (runaway loop)";
      } else if (WIFSIGNALED(st)) {
        o.msg = "killed by signal " + std::to_string(WTERMSIG(st));
      } else {
        o.msg = "sanitizer report or abnormal exit "
            + std::to_string(WEXITSTATUS(st));
      }
    }
    if (g_sh->tape_len) {
      o.tape.assign(g_sh->tape, g_sh->tape + g_sh->tape_len);
    }
    return o;
  }

  static int shrink(std::size_t si, u64 seed, const std::string& outfile,
                    double budget)
  {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] {
      return budget
          - std::chrono::duration<double>(std::chrono::steady_clock::now()
                                          - t0)
                .count();
    };
    Out first = forked(si, nullptr, seed, true);
    if (!first.failed) {
      return 4; // not reproducible
    }
    std::vector<u64> best = first.tape;
    Out bo = forked(si, &best, 0, true);
    if (!bo.failed) {
      // keep the seed form
      write_replay(outfile, si, nullptr, seed, first);
      return 0;
    }
    auto try_tape = [&](const std::vector<u64>& t) {
      Out o = forked(si, &t, 0, true);
      if (o.failed) {
        best = t;
        bo = std::move(o);
        if (!bo.tape.empty() && bo.tape.size() < best.size()) {
          best = bo.tape;
        }
        return true;
      }
      return false;
    };
    bool progress = true;
    while (progress && left() > 0) {
      progress = false;
      // delete spans
      for (std::size_t len : { 64u, 32u, 16u, 12u, 10u, 9u, 8u, 7u, 6u, 5u, 4u, 3u, 2u, 1u }) {
        for (std::size_t i = 0; i + len <= best.size() && left() > 0;) {
          std::vector<u64> t = best;
          t.erase(t.begin() + static_cast<long>(i),
                  t.begin() + static_cast<long>(i + len));
          if (try_tape(t)) {
            progress = true;
          } else {
            i += len > 12 ? len / 2 : 1;
          }
        }
      }
      // lower values
      for (std::size_t i = 0; i < best.size() && left() > 0; ++i) {
        if (best[i] == 0) {
          continue;
        }
        std::vector<u64> t = best;
        t[i] = 0;
        if (try_tape(t)) {
          progress = true;
          continue;
        }
        // binary descent
        u64 lo = 0, hi = i < best.size() ? best[i] : 0;
        while (hi - lo > 1 && left() > 0) {
          u64 mid = lo + (hi - lo) / 2;
          t = best;
          if (i >= t.size()) {
            break;
          }
          t[i] = mid;
          if (try_tape(t)) {
            hi = mid;
            progress = true;
          } else {
            lo = mid;
          }
        }
      }
    }
    write_replay(outfile, si, &best, 0, bo);
    return 0;
  }

  static void write_replay(const std::string& f, std::size_t si,
                           const std::vector<u64>* tape, u64 seed, const Out& o)
  {
    std::ofstream os(f);
    os << "section " << sections()[si].name << "\n";
    if (tape) {
      os << "tape";
      for (auto v : *tape) {
        os << ' ' << v;
      }
      os << "\n";
    } else {
      os << "seed " << seed << "\n";
    }
    std::string m = o.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    os << "# what fails: " << m << "\n";
    os << "# case:" << o.desc << "\n";
  }
};

namespace {
  std::size_t find_section(const std::string& n)
  {
    for (std::size_t i = 0; i < sections().size(); ++i) {
      if (n == sections()[i].name) {
        return i;
      }
    }
    fprintf(stderr, "no section %s\n", n.c_str());
    exit(2);
  }
}

int engine_main(int argc, char** argv)
{
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) {
    a[argv[i]] = argv[i + 1];
  }
  auto get = [&](const char* k, const char* d) {
    auto it = a.find(k);
    return it == a.end() ? std::string(d) : it->second;
  };
  std::string mode = get("--mode", "run");
  std::string shm = get("--shm", "");
  if (!shm.empty()) {
    int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      perror("shm");
      return 2;
    }
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                     PROT_READ | PROT_WRITE, MAP_SHARED, fd,
                                     0));
  } else {
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  if (mode == "list") {
    printf("R\t%s\n", g_rule);
    for (auto& s : sections()) {
      printf("S\t%s\t%llu\t%llu\t%s\n", s.name, (unsigned long long)s.quick,
             (unsigned long long)s.thorough, s.known ? s.known : "-");
    }
    return 0;
  }
  if (mode == "run") {
    u64 seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    bool thorough = get("--tier", "quick") == "thorough";
    unsigned shard = static_cast<unsigned>(atoi(get("--shard", "0").c_str()));
    unsigned shards = static_cast<unsigned>(atoi(get("--shards", "1").c_str()));
    double budget = atof(get("--budget", "1e9").c_str());
    u64 num = strtoull(get("--scale-num", "1").c_str(), nullptr, 10);
    u64 den = strtoull(get("--scale-den", "1").c_str(), nullptr, 10);
    FILE* out = fopen(get("--out", "/dev/stdout").c_str(), "w");
    if (!out) {
      perror("out");
      return 2;
    }
    return Case::Engine::worker(seed, thorough, shard, shards, num, den, budget,
                                out, get("--only", ""),
                                get("--hashes", "/dev/null"));
  }
  if (mode == "status") { // read the shared state of a dead worker
    printf("%llu\t%s\t%llu\t%llu\t%d\t%s\n", (unsigned long long)g_sh->section,
           sections()[g_sh->section].name, (unsigned long long)g_sh->index,
           (unsigned long long)g_sh->seed, g_sh->stage,
           g_sh->stage == 2 ? g_sh->msg : "");
    return 0;
  }
  if (mode == "shrink") {
    return Case::Engine::shrink(
        find_section(get("--section", "")),
        strtoull(get("--case-seed", "0").c_str(), nullptr, 10),
        get("--replay", "/dev/stdout"), atof(get("--budget", "60").c_str()));
  }
  if (mode == "shrink-sequence") {
    return Case::Engine::shrink_sequence(
        find_section(get("--section", "")),
        strtoull(get("--seed", "1").c_str(), nullptr, 10),
        strtoull(get("--last", "0").c_str(), nullptr, 10),
        strtoull(get("--shards", "1").c_str(), nullptr, 10),
        get("--replay", "/dev/stdout"));
  }
  if (mode == "replay") {
    std::ifstream is(get("--replay", ""));
    std::string line, section;
    unsigned long long sq[4] = { 0, 0, 0, 0 };
    std::vector<u64> tape;
    bool have_tape = false;
    u64 seed = 0;
    while (std::getline(is, line)) {
      if (line.rfind("section ", 0) == 0) {
        section = line.substr(8);
      } else if (line.rfind("tape", 0) == 0) {
        have_tape = true;
        const char* p = line.c_str() + 4;
        char* e;
        for (;;) {
          u64 v = strtoull(p, &e, 10);
          if (e == p) {
            break;
          }
          tape.push_back(v);
          p = e;
        }
      } else if (line.rfind("sequence ", 0) == 0) {
        sscanf(line.c_str() + 9, "%llu %llu %llu %llu", sq, sq + 1, sq + 2,
               sq + 3);
      } else if (line.rfind("seed ", 0) == 0) {
        seed = strtoull(line.c_str() + 5, nullptr, 10);
      }
    }
    bool quiet = get("--quiet", "0") == "1";
    auto o = sq[2]
        ? Case::Engine::sequence(find_section(section), sq[0], sq[1], sq[2],
                                 sq[3], quiet)
        : Case::Engine::forked(find_section(section),
                               have_tape ? &tape : nullptr, seed, quiet);
    if (o.failed) {
      printf("FAIL %s\ncase:%s\n", o.msg.c_str(), o.desc.c_str());
      return 3;
    }
    printf("PASS\n");
    return 0;
  }
  if (mode == "probe") {
    auto o = Case::Engine::forked(find_section("known:" + get("--key", "")),
                                  nullptr, 1, get("--quiet", "1") == "1");
    if (o.failed) {
      printf("FAIL %s\n", o.msg.c_str());
      return 3;
    }
    printf("PASS\n");
    return 0;
  }
  fprintf(stderr, "bad mode\n");
  return 2;
}
}

int main(int argc, char** argv)
{
  return pbt::engine_main(argc, argv);
}
