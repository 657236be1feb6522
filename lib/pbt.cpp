#include "pbt.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Sub>& registry()
{
  static std::vector<Sub> r;
  return r;
}

std::string& rule()
{
  static std::string r;
  return r;
}

std::string show_u(u128 v)
{
  if (v == 0)
    return "0";
  std::string s;
  for (; v; v /= 10)
    s += char('0' + int(v % 10));
  std::reverse(s.begin(), s.end());
  return s;
}

std::string show(i128 v)
{
  return v < 0 ? "-" + show_u(u128(0) - u128(v)) : show_u(u128(v));
}

i128 parse_i128(std::string const& s)
{
  i128 r = 0;
  bool neg = false;
  for (char c : s)
    if (c == '-')
      neg = true;
    else if (c >= '0' && c <= '9')
      r = r * 10 + (c - '0');
  return neg ? -r : r;
}

namespace {

// --- guarded execution of one case -----------------------------------------

sigjmp_buf g_jump;
volatile sig_atomic_t g_armed = 0;
volatile sig_atomic_t g_signal = 0;
volatile u64 g_case_no = 0;
volatile u64 g_timer_case = 0;
volatile int g_timer_ticks = 0;
int const hang_ticks = 8; // seconds of CPU time in one case

void on_signal(int sig)
{
  if (in_case_thread)
    std::_Exit(1);
  if (!g_armed)
  {
    ::signal(sig, SIG_DFL);
    ::raise(sig);
    return;
  }
  g_signal = sig;
  siglongjmp(g_jump, 1);
}

void on_timer(int)
{
  if (!g_armed || in_case_thread)
    return;
  if (g_timer_case == g_case_no)
  {
    if (++g_timer_ticks >= hang_ticks)
    {
      g_signal = SIGVTALRM;
      siglongjmp(g_jump, 1);
    }
  }
  else
  {
    g_timer_case = g_case_no;
    g_timer_ticks = 0;
  }
}

void install_handlers()
{
  static std::vector<char> alt(1 << 16);
  stack_t ss {};
  ss.ss_sp = alt.data();
  ss.ss_size = alt.size();
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGTRAP})
    sigaction(s, &sa, nullptr);
  struct sigaction ta {};
  ta.sa_handler = on_timer;
  ta.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGVTALRM, &ta, nullptr);
  itimerval tv {};
  tv.it_interval.tv_sec = 1;
  tv.it_value.tv_sec = 1;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

enum class Status { pass, discard, fail };

struct Outcome {
  Status status = Status::pass;
  std::string message;
};

void run_guarded(Body const& body, Ctx& ctx, Outcome& out)
{
  ++g_case_no;
  g_timer_ticks = 0;
  g_timer_case = g_case_no;
  if (sigsetjmp(g_jump, 0) == 0)
  {
    g_armed = 1;
    try
    {
      body(ctx);
      out.status = Status::pass;
    }
    catch (Discard const&)
    {
      out.status = Status::discard;
    }
    catch (Failure const& f)
    {
      out.status = Status::fail;
      out.message = f.message;
    }
    catch (std::exception const& e)
    {
      out.status = Status::fail;
      out.message = std::string("unexpected exception: ") + e.what();
    }
    catch (char const* e)
    {
      out.status = Status::fail;
      out.message = std::string("unexpected exception: ") + e;
    }
    g_armed = 0;
#ifdef PBT_ONLY_TRAPS // wrong results are not judged, only undefined behaviour
    if (out.status == Status::fail)
    {
      out.status = Status::pass;
      out.message.clear();
    }
#endif
  }
  else
  {
    g_armed = 0;
    out.status = Status::fail;
    int const s = g_signal;
    if (s == SIGVTALRM ? ctx.may_be_slow : ctx.may_trap)
    {
      out.status = Status::discard;
      return;
    }
    out.message = s == SIGVTALRM ? "does not return (hang)"
                  : s == SIGFPE  ? "trapped: SIGFPE"
                  : s == SIGSEGV ? "trapped: SIGSEGV"
                  : s == SIGABRT ? "aborted: SIGABRT"
#ifdef PBT_ONLY_TRAPS
                  : s == SIGILL ? "trapped: undefined behaviour reported by the sanitizer"
#endif
                                 : "trapped: signal " + std::to_string(s);
  }
}

Outcome run_fresh(Sub const& sub, u64 seed, u64 index, Ctx& ctx)
{
  ctx.src.state = mix(seed ^ mix(hash_str(sub.name) ^ mix(index)));
  Outcome o;
  run_guarded(sub.body, ctx, o);
  return o;
}

Outcome run_replay(Sub const& sub, std::vector<u64> const& choices, Ctx& ctx)
{
  ctx.src.replay = &choices;
  Outcome o;
  run_guarded(sub.body, ctx, o);
  return o;
}

// --- shrinking ---------------------------------------------------------------

bool shortlex_less(std::vector<u64> const& a, std::vector<u64> const& b)
{
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

std::vector<u64> shrink(Sub const& sub, std::vector<u64> best, int budget)
{
  auto cpu_now = [] {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
  };
  double const limit = cpu_now() + 20;
  auto attempt = [&](std::vector<u64> const& cand) {
    if (budget <= 0 || cpu_now() > limit)
      return false;
    --budget;
    Ctx c;
    Outcome const o = run_replay(sub, cand, c);
    if (o.status != Status::fail)
      return false;
    // what was really consumed, without the unused tail
    std::vector<u64> used = o.message.compare(0, 7, "trapped") == 0
                              ? cand
                              : c.src.rec;
    if (used.size() > cand.size())
      used.resize(cand.size());
    while (!used.empty() && used.back() == 0)
      used.pop_back();
    if (shortlex_less(used, best))
    {
      best = used;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && budget > 0)
  {
    improved = false;
    for (std::size_t len : {std::size_t(16), std::size_t(8), std::size_t(4),
                            std::size_t(3), std::size_t(2), std::size_t(1)})
      for (std::size_t i = best.size(); i-- > 0;)
      {
        if (i + len > best.size())
          continue;
        auto c = best;
        c.erase(c.begin() + long(i), c.begin() + long(i + len));
        if (attempt(c))
          improved = true;
      }
    for (std::size_t i = 0; i < best.size(); ++i)
    {
      if (best[i] == 0)
        continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c))
      {
        improved = true;
        continue;
      }
      u64 lo = 0, hi = best[i]; // invariant: hi fails
      while (hi - lo > 1)
      {
        u64 const mid = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size())
          break;
        c[i] = mid;
        if (attempt(c))
        {
          improved = true;
          if (i >= best.size())
            break;
          hi = mid;
        }
        else
          lo = mid;
      }
      if (i < best.size() && best[i] > 0)
      {
        c = best;
        --c[i];
        if (attempt(c))
          improved = true;
      }
    }
  }
  return best;
}

// --- files ---------------------------------------------------------------------

std::string json_escape(std::string const& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += char(c);
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += char(c);
  }
  return r;
}

std::string one_line(std::string s)
{
  for (auto& c : s)
    if (c == '\n')
      c = ' ';
  return s;
}

struct Opts {
  u64 seed = 1;
  u64 cases = 1000;
  int workers = 8;
  double budget = 0; // seconds, shared by the sub-properties; 0: none
  std::string out = "result.json";
  std::string dir = ".";
};

struct WorkerStats {
  u64 evaluations = 0, discards = 0, nontrivial = 0;
};

struct Shared { // one per worker
  volatile u64 sub;
  volatile u64 index;
  volatile int done;
};

u64 cases_for(Sub const& s, double total_weight, u64 cases)
{
  return std::max<u64>(16, u64(double(cases) * s.weight / total_weight));
}

void write_replay(std::string const& file,
                  Sub const& sub,
                  std::vector<u64> const& choices,
                  std::string const& message,
                  std::string const& text,
                  std::string const& extra)
{
  std::ofstream f(file);
  f << "sub=" << sub.name << "\nchoices=";
  for (u64 c : choices)
    f << c << ' ';
  f << "\n" << extra;
  f << "# case: " << one_line(text) << "\n# failure: " << one_line(message)
    << "\n";
}

// Runs the stream of cases of one worker.  Returns the number of failures.
int worker_stream(Opts const& o,
                  int w,
                  Shared* sh,
                  bool until_first_failure,
                  std::string const& prefix)
{
  install_handlers();
  rlimit rl {};
  rl.rlim_cur = rl.rlim_max = 4ULL << 30;
#ifndef PBT_NO_RLIMIT
  setrlimit(RLIMIT_AS, &rl);
#endif
  auto const& subs = registry();
  double tw = 0;
  for (auto const& s : subs)
    tw += s.weight;
  int failures = 0;
  WorkerStats st;
  std::vector<u64> hashes;
  std::map<std::string, u64> labels;
  std::vector<std::string> samples;
  struct SubStat {
    u64 ev = 0, nt = 0, dis = 0;
  };
  std::vector<SubStat> ss(subs.size());
  auto wall = [] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
  };
  double const began = wall();
  double share = 0;
  u64 cut = 0;

  // A sub-property that failed is not run further; the others are.
  for (std::size_t si = 0; si < subs.size(); ++si)
  {
    auto const& sub = subs[si];
    u64 const n = cases_for(sub, tw, o.cases);
    u64 const sample_at = mix(o.seed ^ hash_str(sub.name)) % std::max<u64>(1, n);
    bool sampled = false;
    share += sub.weight / tw;
    double const deadline = began + o.budget * share;
    u64 tick = 0;
    for (u64 i = u64(w); i < n; i += u64(o.workers))
    {
      if (o.budget > 0 && (++tick & 15) == 0 && wall() > deadline)
      {
        ++cut;
        break;
      }
      if (sh)
      {
        sh->sub = si;
        sh->index = i;
      }
      Ctx c;
      c.src.rec.reserve(32);
      if (i >= sample_at && !sampled && si % u64(o.workers) == u64(w))
        c.verbose = true;
      Outcome r = run_fresh(sub, o.seed, i, c);
      if (r.status == Status::discard)
      {
        ++st.discards;
        ++ss[si].dis;
        continue;
      }
      ++st.evaluations;
      ++ss[si].ev;
      if (r.status == Status::fail)
      {
        ++failures;
        auto const original = c.src.rec;
        if (until_first_failure)
        {
          std::cout << "FAIL " << sub.name << ": " << one_line(r.message)
                    << "\n";
          return 1;
        }
        auto best = shrink(sub, original, 3000);
        Ctx v;
        v.verbose = true;
        Outcome again = run_replay(sub, best, v);
        if (again.status != Status::fail)
        {
          best = original;
          Ctx v2;
          v2.verbose = true;
          again = run_replay(sub, best, v2);
          v.text = v2.text;
        }
        std::ostringstream extra;
        extra << "stream=" << o.seed << ' ' << o.cases << ' ' << o.workers
              << ' ' << w << "\n";
        write_replay(prefix + ".fail." + std::to_string(failures),
                     sub,
                     best,
                     again.status == Status::fail ? again.message : r.message,
                     v.text,
                     extra.str());
        if (failures >= 6)
          goto finished;
        break;
      }
      for (auto l : c.labels)
        ++labels[l];
      if (c.nontrivial_)
      {
        ++st.nontrivial;
        ++ss[si].nt;
        u64 h = hash_str(sub.name);
        for (u64 x : c.src.rec)
          h = mix(h ^ x) + 0x1234567;
        if (c.case_hash)
          h = mix(c.case_hash ^ hash_str(sub.name));
        if (hashes.size() < 3000000)
          hashes.push_back(h);
        if (c.verbose && samples.size() < 12)
        {
          samples.push_back(sub.name + ": " + one_line(c.text));
          sampled = true;
        }
      }
    }
  }
finished:
  if (until_first_failure)
    return 0;
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  {
    std::ofstream h(prefix + ".hashes", std::ios::binary);
    h.write(reinterpret_cast<char const*>(hashes.data()),
            long(hashes.size() * 8));
  }
  std::ofstream f(prefix + ".stats");
  f << st.evaluations << ' ' << st.discards << ' ' << st.nontrivial << ' '
    << cut << "\n";
  f << labels.size() << "\n";
  for (auto const& [k, v] : labels)
    f << v << ' ' << k << "\n";
  f << ss.size() << "\n";
  for (auto const& s : ss)
    f << s.ev << ' ' << s.nt << ' ' << s.dis << "\n";
  f << samples.size() << "\n";
  for (auto const& s : samples)
    f << s << "\n";
  f.close();
  if (sh)
    sh->done = 1;
  return failures;
}

int cmd_run(Opts const& o)
{
  auto* shared = static_cast<Shared*>(mmap(nullptr,
                                           sizeof(Shared) * 64,
                                           PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS,
                                           -1,
                                           0));
  std::vector<pid_t> pids;
  std::cout.flush();
  for (int w = 0; w < o.workers; ++w)
  {
    pid_t const p = fork();
    if (p == 0)
    {
      worker_stream(
        o, w, &shared[w], false, o.dir + "/w" + std::to_string(w));
      std::_Exit(0);
    }
    pids.push_back(p);
  }
  auto const& subs = registry();
  std::vector<std::string> fails;
  for (int w = 0; w < o.workers; ++w)
  {
    int st = 0;
    waitpid(pids[std::size_t(w)], &st, 0);
    if (!shared[w].done)
    { // the worker died outside the guard: the case it was in is to blame
      auto const& sub = subs[shared[w].sub];
      std::string const f = o.dir + "/w" + std::to_string(w) + ".fail.died";
      std::ostringstream extra;
      extra << "stream=" << o.seed << ' ' << o.cases << ' ' << o.workers << ' '
            << w << "\n"
            << "index=" << o.seed << ' ' << shared[w].index << "\n";
      write_replay(f, sub, {}, "worker process died in this case", "",
                   extra.str());
    }
  }
  // merge
  WorkerStats t;
  std::map<std::string, u64> labels;
  struct SubStat {
    u64 ev = 0, nt = 0, dis = 0;
  };
  std::vector<SubStat> ss(subs.size());
  std::vector<std::string> samples;
  std::vector<u64> hashes;
  u64 cut = 0;
  for (int w = 0; w < o.workers; ++w)
  {
    std::ifstream f(o.dir + "/w" + std::to_string(w) + ".stats");
    if (!f)
      continue;
    u64 a, b, c, d, n;
    f >> a >> b >> c >> d >> n;
    cut += d;
    t.evaluations += a;
    t.discards += b;
    t.nontrivial += c;
    for (u64 i = 0; i < n; ++i)
    {
      u64 v;
      std::string k;
      f >> v;
      std::getline(f, k);
      labels[k.substr(1)] += v;
    }
    f >> n;
    for (u64 i = 0; i < n; ++i)
    {
      u64 x, y, z;
      f >> x >> y >> z;
      ss[i].ev += x;
      ss[i].nt += y;
      ss[i].dis += z;
    }
    f >> n;
    std::string l;
    std::getline(f, l);
    for (u64 i = 0; i < n; ++i)
    {
      std::getline(f, l);
      samples.push_back(l);
    }
    std::ifstream h(o.dir + "/w" + std::to_string(w) + ".hashes",
                    std::ios::binary);
    std::vector<u64> part;
    u64 x;
    while (h.read(reinterpret_cast<char*>(&x), 8))
      part.push_back(x);
    std::size_t const mid = hashes.size();
    hashes.insert(hashes.end(), part.begin(), part.end());
    std::inplace_merge(
      hashes.begin(), hashes.begin() + long(mid), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  }
  std::ofstream f(o.out);
  f << "{\n \"evaluations\": " << t.evaluations
    << ",\n \"discarded\": " << t.discards
    << ",\n \"nontrivial\": " << t.nontrivial
    << ",\n \"streams_cut_short_by_time\": " << cut
    << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"rule\": \""
    << json_escape(rule()) << "\",\n \"subproperties\": {";
  for (std::size_t i = 0; i < subs.size(); ++i)
    f << (i ? "," : "") << "\n  \"" << json_escape(subs[i].name)
      << "\": [" << ss[i].ev << ", " << ss[i].nt << ", " << ss[i].dis << "]";
  f << "\n },\n \"labels\": {";
  bool first = true;
  for (auto const& [k, v] : labels)
  {
    f << (first ? "" : ",") << "\n  \"" << json_escape(k) << "\": " << v;
    first = false;
  }
  f << "\n },\n \"samples\": [";
  for (std::size_t i = 0; i < samples.size() && i < 24; ++i)
    f << (i ? "," : "") << "\n  \"" << json_escape(samples[i]) << "\"";
  f << "\n ]\n}\n";
  return 0;
}

int cmd_replay(std::string const& file)
{
  std::ifstream f(file);
  std::string line, name;
  std::vector<u64> choices;
  Opts so;
  int worker = -1;
  bool have_index = false, have_stream = false;
  u64 iseed = 0, index = 0;
  while (std::getline(f, line))
  {
    if (line.rfind("sub=", 0) == 0)
      name = line.substr(4);
    else if (line.rfind("choices=", 0) == 0)
    {
      std::istringstream s(line.substr(8));
      u64 x;
      while (s >> x)
        choices.push_back(x);
    }
    else if (line.rfind("index=", 0) == 0)
    {
      std::istringstream s(line.substr(6));
      s >> iseed >> index;
      have_index = true;
    }
    else if (line.rfind("mode=stream", 0) == 0)
      have_stream = true;
    else if (line.rfind("stream=", 0) == 0)
    {
      std::istringstream s(line.substr(7));
      s >> so.seed >> so.cases >> so.workers >> worker;
    }
  }
  if (have_stream)
    return worker_stream(so, worker, nullptr, true, "");
  for (auto const& s : registry())
    if (s.name == name)
    {
      install_handlers();
      Ctx c;
      c.verbose = true;
      Outcome o;
      if (have_index)
        o = run_fresh(s, iseed, index, c);
      else
        o = run_replay(s, choices, c);
      std::cout << s.name << ": " << c.text << "\n"
                << (o.status == Status::fail      ? "FAIL: " + o.message
                    : o.status == Status::discard ? "DISCARDED"
                                                  : "PASS")
                << "\n";
      return o.status == Status::fail ? 1 : 0;
    }
  std::cerr << "no such sub-property: " << name << "\n";
  return 2;
}

} // namespace
} // namespace pbt

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv)
{
  using namespace pbt;
  std::string const cmd = argc > 1 ? argv[1] : "";
  if (cmd == "replay" && argc > 2)
    return cmd_replay(argv[2]);
  if (cmd == "list")
  {
    for (auto const& s : registry())
      std::cout << s.name << "\n";
    return 0;
  }
  if (cmd == "run")
  {
    Opts o;
    for (int i = 2; i + 1 < argc; i += 2)
    {
      std::string const k = argv[i], v = argv[i + 1];
      if (k == "--seed")
        o.seed = std::strtoull(v.c_str(), nullptr, 10);
      else if (k == "--cases")
        o.cases = std::strtoull(v.c_str(), nullptr, 10);
      else if (k == "--workers")
        o.workers = std::atoi(v.c_str());
      else if (k == "--budget")
        o.budget = std::atof(v.c_str());
      else if (k == "--out")
        o.out = v;
      else if (k == "--dir")
        o.dir = v;
    }
    return cmd_run(o);
  }
  std::cerr << "usage: run|replay|list\n";
  return 2;
}
#endif
