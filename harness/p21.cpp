// the pool and its queue used by many threads: every task runs exactly once, nothing is lost; a hang is ended and reported
#include <atomic>
#include <chrono>
#include <csignal>
#include <mutex>
#include <thread>
#include <condition_variable>
#include "altro/common/threadpool.hpp"
#include "gen.hpp"
static void hang(int) {
  printf("FAIL hang: the pool does not return\nSTATS evaluations=%ld\n", g_evals);
  fflush(stdout);
  _exit(1);
}
typedef std::chrono::milliseconds ms;
static void nap(int n) { std::this_thread::sleep_for(ms(n)); }
struct Gate {
  std::mutex m;
  std::condition_variable c;
  bool open_ = false;
  void open() {
    std::lock_guard<std::mutex> l(m);
    open_ = true;
    c.notify_all();
  }
  void pass() {
    std::unique_lock<std::mutex> l(m);
    c.wait(l, [this]() { return open_; });
  }
};
struct Tally {
  std::vector<std::unique_ptr<std::atomic<int>>> n;
  std::function<void()> task(int sleep = 0) {
    n.push_back(std::make_unique<std::atomic<int>>(0));
    std::atomic<int>* p = n.back().get();
    return [p, sleep]() {
      if (sleep > 0) nap(sleep);
      ++*p;
    };
  }
  void once(const std::string& w) {
    for (size_t i = 0; i < n.size(); ++i) check(*n[i] == 1, w, "task " + std::to_string(i) + " of " + std::to_string(n.size()) + " ran " + std::to_string(*n[i]) + " times");
  }
};
static void waves(Gen& g) {
  ThreadPool p;
  check(!p.IsRunning() && p.NumThreads() == 0 && p.NumTasks() == 0, "new pool");
  Tally t;
  int before = g.i(0, 40);
  for (int i = 0; i < before; ++i) p.AddTask(t.task());
  check(p.NumTasks() == size_t(before), "tasks queued before the launch");
  int nt = g.i(1, 8);
  p.LaunchThreads(nt);
  check(p.IsRunning() && int(p.NumThreads()) == nt, "launched");
  for (int w = 0; w < 4; ++w) {
    int m = g.i(0, w == 2 ? 300 : 40);
    for (int i = 0; i < m; ++i) p.AddTask(t.task(g.i(0, 30) == 0 ? 2 : 0));
    p.Wait();
    t.once("after waiting");
  }
  p.StopThreads();
  check(!p.IsRunning() && p.NumThreads() == 0, "stopped");
  t.once("after stopping");
}
static void stops(Gen& g) {
  ThreadPool p;
  Tally t;
  for (int w = 0; w < 3; ++w) {
    p.LaunchThreads(g.i(1, 4));
    int m = g.i(1, 60);
    for (int i = 0; i < m; ++i) p.AddTask(t.task());
    p.StopThreads();
    size_t ran = 0;
    for (auto& n : t.n) ran += *n;
    check(ran + p.NumTasks() == t.n.size(), "tasks run and tasks still queued after a stop", std::to_string(ran) + " + " + std::to_string(p.NumTasks()) + " of " + std::to_string(t.n.size()));
    if (g_fails) return;
  }
  p.LaunchThreads(2);
  p.Wait();
  t.once("stopped, launched again and waited for");
}
static void moves(Gen& g) {
  ThreadPool a;
  Tally t;
  int m = g.i(1, 30);
  for (int i = 0; i < m; ++i) a.AddTask(t.task());
  ThreadPool b(std::move(a));
  check(int(b.NumTasks()) == m && !b.IsRunning(), "moved pool");
  ThreadPool c;
  c = std::move(b);
  check(int(c.NumTasks()) == m && !c.IsRunning(), "assigned pool");
  for (int i = 0; i < 5; ++i) c.AddTask(t.task());
  c.LaunchThreads(3);
  c.Wait();
  t.once("moved tasks");
}
static void all_at_once() {   // as many tasks as workers, each needs all the others to be running
  const int n = 6;
  ThreadPool p;
  std::atomic<int> in(0), missing(0);
  p.LaunchThreads(n);
  for (int i = 0; i < n; ++i)
    p.AddTask(std::function<void()>([&]() {
      ++in;
      for (int k = 0; k < 6000 && in < n; ++k) nap(1);
      if (in < n) ++missing;
    }));
  p.Wait();
  check(in == n && missing == 0, "as many workers as requested", std::to_string(in) + " at a time");
}
static void slow_first() {   // the first task exceeds its time; the others do not and are waited for
  ThreadPool p;
  Gate gate;
  Tally t;
  p.SetTimeoutPerTask(ms(2000));
  p.AddTask(std::function<void()>([&]() { gate.pass(); }));
  for (int i = 0; i < 4; ++i) p.AddTask(t.task(650));
  p.LaunchThreads(2);
  p.Wait();
  t.once("tasks after one that takes too long");
  gate.open();
}
static void timed_out() {   // everything times out behind a blocked worker; nothing is lost
  ThreadPool p;
  Gate gate;
  Tally t;
  p.SetTimeoutPerTask(ms(20));
  p.AddTask(std::function<void()>([&]() { gate.pass(); }));
  for (int i = 0; i < 5; ++i) p.AddTask(t.task());
  p.LaunchThreads(1);
  p.Wait();
  gate.open();
  for (int k = 0; k < 5000; ++k) {
    int ran = 0;
    for (auto& n : t.n) ran += *n;
    if (ran >= 5) break;
    nap(1);
  }
  p.StopThreads();
  t.once("tasks that were given up by a wait still run later:");
}
static void slow_all() {
  ThreadPool p;
  Tally t;
  p.LaunchThreads(3);
  for (int i = 0; i < 12; ++i) p.AddTask(t.task(60));
  p.Wait();
  t.once("slow tasks");
}
static void queue() {
  ThreadSafeQueue<int> q;
  const int P = 4, C = 4, M = 3000;
  std::vector<std::atomic<int>> got(P * M);
  for (auto& x : got) x = 0;
  std::atomic<int> left(P * M), wrong(0);
  std::vector<std::thread> th;
  for (int p = 0; p < P; ++p)
    th.emplace_back([&, p]() {
      for (int i = 0; i < M; ++i) q.Push(p * M + i);
    });
  for (int c = 0; c < C; ++c)
    th.emplace_back([&]() {
      std::vector<int> last(P, -1);
      while (left > 0) {
        int v = -1;
        if (!q.TryPop(v)) {
          if (v != -1) ++wrong;
          q.IsEmpty();
          continue;
        }
        --left;
        if (v < 0 || v >= P * M) { ++wrong; continue; }
        ++got[v];
        if (v % M <= last[v / M]) ++wrong;
        last[v / M] = v % M;
      }
    });
  for (auto& t : th) t.join();
  check(wrong == 0, "queue: order and values");
  for (int i = 0; i < P * M; ++i) check(got[i] == 1, "queue: every element once", std::to_string(i) + " came " + std::to_string(got[i]) + " times");
  check(q.Size() == 0 && q.IsEmpty(), "queue: empty at the end", std::to_string(q.Size()));
}
int main(int argc, char**) {
  if (argc > 1) return 0;   // probe: can this binary run here at all
  signal(SIGALRM, hang);
  alarm(thorough() ? 400 : 80);
  Gen g(2121 + seed());
  for (int i = 0; i < rounds(40) && !g_fails; ++i) waves(g);
  for (int i = 0; i < rounds(300) && !g_fails; ++i) stops(g);
  for (int i = 0; i < rounds(30) && !g_fails; ++i) moves(g);
  if (!g_fails) all_at_once();
  if (!g_fails) slow_all();
  if (!g_fails) slow_first();
  if (!g_fails) timed_out();
  for (int i = 0; i < rounds(3) && !g_fails; ++i) queue();
  return finish();
}
