// Two real threads validate with the generated C++, one at a time: which one
// runs is decided here, at every basic block of the generated validators and
// of validate.h (compiled with -fsanitize-coverage=trace-pc-guard). Every
// schedule up to a number of preemptions is run. The code is also compiled
// with -fsanitize=thread, and what hands the turn over is invisible to it (this
// file is not instrumented and uses no pthread calls for it), so that two
// accesses are unordered for it whenever nothing in the code orders them.
#include "conc.h"
#include <google/protobuf/stubs/logging.h>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <set>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::map<std::string, Kind>& kinds() {
  static auto* r = new std::map<std::string, Kind>();
  return *r;
}
std::map<std::string, Runner>& registry() {
  static auto* r = new std::map<std::string, Runner>();
  return *r;
}
std::map<std::string, Histories>& histories() {
  static auto* r = new std::map<std::string, Histories>();
  return *r;
}

static std::atomic<int> turn{-1};        // whose turn it is; 2: anyone's
static std::atomic<bool> done[2];
static std::atomic<long> races{0};
static thread_local int me = -1;
static long points[2];                   // points passed by each thread
static long stop_at[3];                  // after how many points the turn passes on
static int who_stops[3], n_stops, next_stop;
static std::atomic<long> released{0};

extern "C" void __tsan_on_report(void*) { races++; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}

static void wait_turn() {
  time_t since = 0;
  for (long n = 0; turn != me && turn != 2; n++) {
    if (n > 200) sched_yield();
    if (n % 4096 == 4095) {
      struct timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (!since) since = t.tv_sec;
      if (t.tv_sec - since > 5) { turn = 2; released++; }
    }
  }
}
static void pass_on() {
  if (turn == 2 || done[1 - me]) return;
  turn = 1 - me;
  wait_turn();
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (me < 0) return;
  if (turn == 2) return;
  if (next_stop < n_stops && who_stops[next_stop] == me && points[me] >= stop_at[next_stop]) {
    next_stop++;
    pass_on();
  }
  points[me]++;
}

// What can block: the turn is passed on until it does not.
#define TRY(name, trying, T)                        \
  extern "C" int __real_##name(T*);                 \
  extern "C" int __wrap_##name(T* m) {              \
    if (me < 0) return __real_##name(m);            \
    for (;;) {                                      \
      int rc = trying(m);                           \
      if (rc != EBUSY) return rc;                   \
      if (done[1 - me]) return __real_##name(m);    \
      if (turn == 2) sched_yield(); else pass_on(); \
    }                                               \
  }
TRY(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
TRY(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRY(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
static std::atomic<void*> busy[2][64];
static bool other_in(void* g) {
  for (auto& b : busy[1 - me]) if (b == g) return true;
  return false;
}
static void enter(void* g) { for (auto& b : busy[me]) if (!b) { b = g; return; } }
static void leave(void* g) { for (auto& b : busy[me]) if (b == g) { b = nullptr; return; } }
extern "C" int __real___cxa_guard_acquire(long*);
extern "C" void __real___cxa_guard_release(long*);
extern "C" void __real___cxa_guard_abort(long*);
extern "C" int __wrap___cxa_guard_acquire(long* g) {
  if (me < 0) return __real___cxa_guard_acquire(g);
  while (turn != 2 && other_in(g) && !done[1 - me]) pass_on();
  int rc = __real___cxa_guard_acquire(g);
  if (rc) enter(g);
  return rc;
}
extern "C" void __wrap___cxa_guard_release(long* g) { __real___cxa_guard_release(g); if (me >= 0) leave(g); }
extern "C" void __wrap___cxa_guard_abort(long* g) { __real___cxa_guard_abort(g); if (me >= 0) leave(g); }
extern "C" int __real_pthread_once(pthread_once_t*, void (*)());
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (me < 0) return __real_pthread_once(o, f);
  while (turn != 2 && other_in(o) && !done[1 - me]) pass_on();
  enter(o);
  int rc = __real_pthread_once(o, f);
  leave(o);
  return rc;
}

static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}

struct Job { int id; const Kind* k; const google::protobuf::Message* m; Answer a; };
static void* work(void* p) {
  Job* j = static_cast<Job*>(p);
  me = j->id;
  wait_turn();
  Answer a = j->k->ask(*j->m);
  done[me] = true;
  if (turn != 2) turn = 1 - me;
  me = -1;
  j->a = a;
  return nullptr;
}

static long n_schedules, n_points, n_fresh;
// Runs one schedule; the stops are set. Says how many points each passed.
static void schedule(const Kind& k, int first, const google::protobuf::Message* a, const google::protobuf::Message* b, Answer* out) {
  Job j[2] = {{0, &k, a, {}}, {1, &k, b, {}}};
  for (int i = 0; i < 2; i++) { done[i] = false; points[i] = 0; for (auto& x : busy[i]) x = nullptr; }
  next_stop = 0;
  alarm(60);
  turn = first;
  pthread_t t[2];
  for (int i = 0; i < 2; i++) pthread_create(&t[i], nullptr, work, &j[i]);
  for (int i = 0; i < 2; i++) pthread_join(t[i], nullptr);
  n_schedules++;
  n_points += points[0] + points[1];
  out[0] = j[0].a; out[1] = j[1].a;
}

struct Value { std::string wire; std::shared_ptr<google::protobuf::Message> m; bool loose; Answer want; };

static std::string clean(std::string s) {
  for (auto& c : s) if (c == '\n' || c == '\t' || c == 0) c = ' ';
  return s;
}

// A child explores one type, so that what a first call does is seen again.
static void explore(const std::string& name, std::vector<Value> vs, long deep, bool fresh, FILE* out) {
  const Kind& k = kinds()[name];
  for (size_t i = 0; i < vs.size(); i++) {
    vs[i].m = k.parse(vs[i].wire);
    vs[i].loose = unordered(*vs[i].m);
  }
  std::string bad;
  auto run = [&](int i, int j, int first, std::vector<long> stops) {
    n_stops = stops.size();
    std::string how = "the " + std::string(first ? "second" : "first") + " call starts";
    for (int s = 0; s < n_stops; s++) {
      who_stops[s] = s % 2 ? 1 - first : first;
      stop_at[s] = stops[s];
      how += ", is interrupted after " + std::to_string(stops[s]) + " points";
      if (s) how += " (the other)";
    }
    std::string before[2] = {settled(*vs[i].m), settled(*vs[j].m)};
    Answer got[2];
    long r = races;
    schedule(k, first, vs[i].m.get(), vs[j].m.get(), got);
    if (bad.empty() && races > r) bad = "race\ttwo calls made at the same time access the same memory, and one of them writes to it; values " + std::to_string(i) + " and " + std::to_string(j) + ": " + how;
    int v[2] = {i, j};
    for (int t = 0; t < 2 && bad.empty(); t++) {
      const Value& w = vs[v[t]];
      if (w.loose ? got[t].first != w.want.first : got[t] != w.want)
        bad = std::string("answer\tthe ") + (t ? "second" : "first") + " call answers " + got[t].first + " " + clean(got[t].second) + " and alone " + w.want.first + " " + clean(w.want.second) + "; values " + std::to_string(i) + " and " + std::to_string(j) + ": " + how;
      if (settled(*vs[v[t]].m) != before[t]) bad = "message\tthe message is changed; values " + std::to_string(i) + " and " + std::to_string(j) + ": " + how;
    }
    return next_stop == n_stops;
  };
  // each of these schedules is what the process does first
  for (size_t j = 0; fresh && bad.empty() && j < vs.size() && j < 2; j++)
    for (int first = 0; first < 2; first++)
      for (long x = 0;; x++) {
        pid_t c = fork();
        if (c == 0) {
          bool reached = run(0, j, first, {x});
          if (!bad.empty()) { fprintf(out, "BAD\t%s\t%s (the first calls of the process)\n", name.c_str(), bad.c_str()); fflush(out); _exit(2); }
          _exit(reached ? 0 : 1);
        }
        int st;
        waitpid(c, &st, 0);
        n_fresh++;
        if (st == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 2) return;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(out, "BAD\t%s\tcrash\tthe first calls crash when one is interrupted after %ld points (%d)\n", name.c_str(), x, st); fflush(out); return; }
        break;
      }
  long two = 0;
  for (size_t i = 0; i < vs.size(); i++)
    for (size_t j = i; j < vs.size(); j++)
      for (int first = 0; first < 2; first++) {
        for (long x = 0; bad.empty() && run(i, j, first, {x}); x++) {}
        long first_n = points[first], other_n = points[1 - first];
        if (first_n * other_n > deep) continue;
        two++;
        for (long x = 0; bad.empty(); x++) {
          long y = 0;
          for (; bad.empty() && run(i, j, first, {x, y}); y++) {}
          if (y == 0) break;
        }
      }
  if (!bad.empty()) fprintf(out, "BAD\t%s\t%s\n", name.c_str(), bad.c_str());
  fprintf(out, "COUNT %ld %ld %ld %ld %ld\n", n_schedules + n_fresh, n_points, two, released.load(), n_fresh);
}

int main(int argc, char** argv) {
  google::protobuf::SetLogHandler(nullptr);
  const int shards = 8;
  const long deep = atol(argv[3]), every = atol(argv[4]);
  std::vector<pid_t> kids;
  for (int s = 0; s < shards; s++) {
    pid_t p = fork();
    if (p) { kids.push_back(p); continue; }
    std::ifstream in(argv[1]);
    FILE* out = fopen((std::string(argv[2]) + "." + std::to_string(s)).c_str(), "w");
    std::string line, name;
    int at = 0;
    bool mine = false;
    std::vector<Value> vs;
    long types = 0, values = 0;
    int rc = 0;
    auto flush = [&]() {
      if (!mine || vs.empty()) return;
      types++; values += vs.size();
      fflush(out);
      // what each value gets when nothing else runs
      int fd[2];
      if (pipe(fd)) _exit(4);
      std::vector<Value> alone = vs;
      auto keep = [&](pid_t c) {
        int st;
        waitpid(c, &st, 0);
        if (WIFSIGNALED(st) || WEXITSTATUS(st) == 77) { fprintf(out, "BAD\t%s\tcrash\tthe validator %s (%d)\n", name.c_str(), WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not end" : "crashes", st); fflush(out); return false; }
        return true;
      };
      pid_t c = fork();
      if (c == 0) {
        close(fd[0]);
        alarm(60);
        FILE* w = fdopen(fd[1], "w");
        const Kind& k = kinds()[name];
        for (auto& v : vs) {
          auto m = k.parse(v.wire);
          Answer a = m ? k.ask(*m) : Answer{'P', ""};
          unsigned n = a.second.size();
          fwrite(&a.first, 1, 1, w); fwrite(&n, sizeof n, 1, w); fwrite(a.second.data(), 1, n, w);
        }
        fclose(w);
        _exit(0);
      }
      close(fd[1]);
      FILE* rd = fdopen(fd[0], "r");
      std::vector<Value> some;
      std::set<Answer> seen;
      std::map<char, int> per;
      for (auto& v : alone) {
        unsigned n = 0;
        if (fread(&v.want.first, 1, 1, rd) != 1 || fread(&n, sizeof n, 1, rd) != 1) break;
        v.want.second.resize(n);
        if (n && fread(&v.want.second[0], 1, n, rd) != n) break;
        if (v.want.first != 'P' && per[v.want.first] < 2 && seen.insert(v.want).second) { per[v.want.first]++; some.push_back(v); }
      }
      fclose(rd);
      if (!keep(c) || some.empty()) return;
      c = fork();
      if (c == 0) { explore(name, some, deep, types % every == 0, out); fflush(out); _exit(0); }
      keep(c);
    };
    while (std::getline(in, line)) {
      if (line[0] == 'T') {
        flush();
        vs.clear();
        name = line.substr(2);
        mine = at++ % shards == s;
        if (mine && !kinds().count(name)) { fprintf(out, "MISSING %s\n", name.c_str()); mine = false; }
        continue;
      }
      if (!mine) continue;
      size_t a = line.find(' ', 2);
      vs.push_back({unhex(line.substr(2, a - 2)), nullptr, false, {}});
    }
    flush();
    fprintf(out, "DONE %ld %ld\n", types, values);
    fclose(out);
    _exit(rc);
  }
  int rc = 0;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) rc = 4; }
  return rc;
}
