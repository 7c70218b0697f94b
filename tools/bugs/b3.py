TP = 'altro/common/threadpool.cpp'
TH = 'altro/common/threadpool.hpp'
Q = 'altro/common/threadsafe_queue.hpp'
HEAD = r'''
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <mutex>
#include <thread>
#include "altro/common/threadpool.hpp"
#include "gen.hpp"
typedef std::chrono::milliseconds ms;
'''
BUGS = [
 ('P21-stop-loses-task', 'P21', [(TP, '    if (queue_.TryPop(task)) {\n      task();', '    if (queue_.TryPop(task) && is_running_) {\n      task();')],
  'a pool that is stopped between the moment a worker takes a task and the moment it runs it', 'the task taken is dropped without being run',
  HEAD + r'''
int main() {
  std::atomic<long> ran(0);
  long added = 0;
  for (int k = 0; k < 3000; ++k) {
    ThreadPool p;
    p.LaunchThreads(4);
    for (int i = 0; i < 40; ++i, ++added) p.AddTask(std::function<void()>([&]() { ++ran; }));
    p.StopThreads();
    added -= p.NumTasks();
    if (!check(ran == added, "every task taken has run", std::to_string(ran) + " of " + std::to_string(added))) break;
  }
  return finish();
}
'''),
 ('P21-wait-gives-up', 'P21', [(TP, '      fmt::print("Task timed out after {}\\n", timeout_);\n', '      fmt::print("Task timed out after {}\\n", timeout_);\n      break;\n')],
  'a task that exceeds its time-out before others that do not', 'waiting returns at the first task that times out, without waiting for the others',
  HEAD + r'''
int main() {
  ThreadPool p;
  std::mutex m;
  std::atomic<int> ran(0);
  m.lock();
  p.SetTimeoutPerTask(ms(1500));
  p.AddTask(std::function<void()>([&]() { std::lock_guard<std::mutex> l(m); }));
  for (int i = 0; i < 4; ++i) p.AddTask(std::function<void()>([&]() { std::this_thread::sleep_for(ms(500)); ++ran; }));
  p.LaunchThreads(2);
  p.Wait();
  check(ran == 4, "the other tasks were waited for", std::to_string(ran));
  m.unlock();
  return finish();
}
'''),
 ('P21-timed-out-futures', 'P21', [(TP, '  futures_.clear();\n', '  if (queue_.Size() > 0) {\n    queue_.Clear();\n  }\n  futures_.clear();\n')],
  'a wait that times out while tasks are still queued', 'the tasks still queued are thrown away',
  HEAD + r'''
int main() {
  ThreadPool p;
  std::mutex m;
  std::atomic<int> ran(0);
  m.lock();
  p.SetTimeoutPerTask(ms(20));
  p.AddTask(std::function<void()>([&]() { std::lock_guard<std::mutex> l(m); }));
  for (int i = 0; i < 4; ++i) p.AddTask(std::function<void()>([&]() { ++ran; }));
  p.LaunchThreads(1);
  p.Wait();
  m.unlock();
  for (int i = 0; i < 4000 && ran < 4; ++i) std::this_thread::sleep_for(ms(1));
  check(ran == 4, "tasks given up by a wait still run", std::to_string(ran));
  return finish();
}
'''),
]
