// the queue against std::deque, used from one thread; a call that hangs is ended and reported
#include <csignal>
#include <deque>
#include "altro/common/threadsafe_queue.hpp"
#include "gen.hpp"
static void hang(int) {
  printf("FAIL hang: a queue operation does not return\nSTATS evaluations=%ld\n", g_evals);
  fflush(stdout);
  _exit(1);
}
struct Item {   // counts live objects: nothing is lost or freed twice
  static long live;
  int v;
  explicit Item(int a = -1) : v(a) { ++live; }
  Item(const Item& o) : v(o.v) { ++live; }
  Item& operator=(const Item& o) = default;
  ~Item() { --live; }
};
long Item::live = 0;
static int val(int x) { return x; }
static int val(const Item& x) { return x.v; }
template <class T>
void run(Gen& g) {
  typedef ThreadSafeQueue<T> Q;
  auto q = std::make_unique<Q>();
  std::deque<int> d;
  int next = 0;
  std::string trace;
  auto same = [&](const std::string& w) {
    check(q->Size() == d.size(), w + " size", std::to_string(q->Size()) + " expected " + std::to_string(d.size()));
    check(q->IsEmpty() == d.empty(), w + " empty");
  };
  auto pop = [&](const std::string& w) {
    T x(-7);
    bool r = q->TryPop(x);
    check(r == !d.empty(), w + " result");
    if (d.empty()) {
      check(val(x) == -7, w + " leaves the value alone");
    } else {
      check(val(x) == d.front(), w + " element", std::to_string(val(x)) + " expected " + std::to_string(d.front()));
      d.pop_front();
    }
  };
  for (int i = 0; i < 60; ++i) {
    int op = g.i(0, 11);
    trace += " " + std::to_string(op);
    std::string w = "after ops" + trace.substr(trace.size() > 60 ? trace.size() - 60 : 0) + ":";
    if (op <= 4) {
      q->Push(T(next));
      d.push_back(next++);
    } else if (op <= 8) {
      pop(w + " take");
    } else if (op == 9) {
      alarm(5);
      q->Clear();
      alarm(0);
      d.clear();
    } else if (op == 10) {
      auto p = std::make_unique<Q>(std::move(*q));
      q = std::move(p);
    } else {
      auto p = std::make_unique<Q>();
      for (int j = g.i(0, 3); j > 0; --j) p->Push(T(-100));
      alarm(5);
      *p = std::move(*q);
      alarm(0);
      q = std::move(p);
    }
    same(w);
  }
  while (!d.empty()) pop("drain");
  pop("take from an empty queue");
  same("drained");
}
int main() {
  signal(SIGALRM, hang);
  Gen g(seed());
  for (int i = 0; i < rounds(1500); ++i) {
    alarm(60);
    run<int>(g);
    run<Item>(g);
    check(Item::live == 0, "every element is released once", std::to_string(Item::live));
  }
  {   // function objects, as the thread pool uses it
    ThreadSafeQueue<std::function<void()>> q;
    int sum = 0;
    for (int i = 0; i < 100; ++i) q.Push([&sum, i] { sum = 3 * sum + i; });
    int want = 0;
    std::function<void()> f;
    for (int i = 0; i < 100; ++i) {
      check(q.TryPop(f), "task is there");
      f();
      want = 3 * want + i;
      check(sum == want, "tasks in order");
      if (i % 10 == 0) sum = want = 0;
      sum %= 1000;
      want %= 1000;
    }
    check(!q.TryPop(f), "no more tasks");
  }
  return finish();
}
