// Runs one history of a thread pool and logs what happened, for pool_check in
// checks/p21.py:
//   pool_driver SEED THREADS PRODUCERS TASKS EARLY NESTED DELAY BARRIER
// EARLY tasks are scheduled before the workers are started, NESTED of the tasks
// schedule another one, DELAY is the longest delay put in (in us). With BARRIER,
// THREADS tasks wait for each other.
//
// Logs "s P K" (producer P is about to schedule its task K), "t P K" (it has),
// "b P K" / "e P K" (task K of P begins, ends), "d" (the destructor is called),
// "D" (has returned), in the order of a global counter, and "live N", the
// number of function objects that still exist then.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <thread>
#include <vector>

#include "nisaba/port/thread_pool.h"

struct Event {
  char what;
  int producer, task;
  unsigned long order;
};

#ifdef POOL_RELAXED
// Adds no synchronization that could hide a race.
constexpr auto kOrder = std::memory_order_relaxed;
#else
constexpr auto kOrder = std::memory_order_seq_cst;
#endif

std::atomic<unsigned long> clock_(0);
std::atomic<int> live_(0);
int delay_;

Event Now(char what, int producer, int task) {
  return {what, producer, task, clock_.fetch_add(1, kOrder)};
}

void Delay(std::mt19937 *rng) {
  if (!delay_) return;
  switch ((*rng)() % 4) {
    case 0:
      std::this_thread::yield();
      break;
    case 1:
      std::this_thread::sleep_for(
          std::chrono::microseconds((*rng)() % delay_));
      break;
  }
}

struct Counted {
  Counted() { live_.fetch_add(1, std::memory_order_relaxed); }
  Counted(const Counted &) { live_.fetch_add(1, std::memory_order_relaxed); }
  ~Counted() { live_.fetch_sub(1, std::memory_order_relaxed); }
};

// What a task gets from its producer, and leaves to whoever destroys the pool.
// Plain memory: only the pool orders the accesses.
struct Slot {
  int input = 0, output = 0, runs = 0;
  Event begin{}, end{};
};

int main(int, char **a) {
  const unsigned seed = std::atoi(a[1]);
  const int threads = std::atoi(a[2]), producers = std::atoi(a[3]);
  const int tasks = std::atoi(a[4]), early = std::atoi(a[5]);
  const int nested = std::atoi(a[6]);
  delay_ = std::atoi(a[7]);
  const bool barrier = std::atoi(a[8]);
  std::atomic<int> waiting(0), left(0);
  // Per producer: its tasks, the nested ones after them.
  std::vector<std::vector<Slot>> slots(producers + 1,
                                       std::vector<Slot>(tasks + nested));
  std::vector<std::vector<Event>> logs(producers + 1);
  std::vector<Event> nested_log(nested * 2);
  Event d{}, dd{};
  {
    auto pool = std::make_unique<nisaba::ThreadPool>(threads);
    auto run = [&](int p, int k) {
      Slot &s = slots[p][k];
      s.begin = Now('b', p, k);
      ++s.runs;
      std::mt19937 rng(seed * 31 + p * 7 + k);
      if (barrier && p == 0 && k < threads) {
        waiting.fetch_add(1);
        while (waiting.load() < threads) std::this_thread::yield();
      }
      Delay(&rng);
      s.output = s.input + 1;
      s.end = Now('e', p, k);
    };
    auto schedule = [&](int p, int k, std::vector<Event> *log) {
      slots[p][k].input = p * 1000 + k;
      log->push_back(Now('s', p, k));
      Counted c;
      if (p == 0 && k >= tasks - nested && k < tasks && tasks >= nested) {
        const int n = k - (tasks - nested);
        pool->Schedule([&, k, n, c] {
          run(0, k);
          slots[0][tasks + n].input = tasks + n;
          nested_log[2 * n] = Now('s', 0, tasks + n);
          Counted c2;
          pool->Schedule([&, n, c2] { run(0, tasks + n); });
          nested_log[2 * n + 1] = Now('t', 0, tasks + n);
        });
      } else {
        pool->Schedule([&, p, k, c] { run(p, k); });
      }
      log->push_back(Now('t', p, k));
    };
    int first = 0;
    for (; first < early && first < tasks; ++first) {
      schedule(0, first, &logs[0]);
    }
    pool->StartWorkers();
    std::vector<std::thread> others;
    for (int p = 1; p < producers; ++p) {
      others.emplace_back([&, p] {
        std::mt19937 rng(seed * 17 + p);
        for (int k = 0; k < tasks; ++k) {
          schedule(p, k, &logs[p]);
          Delay(&rng);
        }
      });
    }
    std::mt19937 rng(seed);
    for (int k = first; k < tasks; ++k) {
      schedule(0, k, &logs[0]);
      Delay(&rng);
    }
    for (auto &t : others) t.join();
    if (nested) {
      // The pool must still be there for tasks that are scheduled by tasks.
      left = threads;
      for (int i = 0; i < threads; ++i) {
        pool->Schedule([&left] {
          left.fetch_sub(1);
          while (left.load() > 0) std::this_thread::yield();
        });
      }
      while (left.load() > 0) std::this_thread::yield();
    }
    if (seed % 3 == 0) {
      std::this_thread::sleep_for(std::chrono::microseconds(seed % 500));
    }
    d = Now('d', 0, 0);
    pool.reset();
    dd = Now('D', 0, 0);
  }
  auto print = [](const Event &e) {
    std::printf("%lu %c %d %d\n", e.order, e.what, e.producer, e.task);
  };
  for (const auto &l : logs) for (const auto &e : l) print(e);
  for (const auto &e : nested_log) print(e);
  for (int p = 0; p < producers; ++p) {
    for (int k = 0; k < tasks + (p == 0 ? nested : 0); ++k) {
      const Slot &s = slots[p][k];
      if (s.runs) {
        print(s.begin);
        print(s.end);
      }
      std::printf("slot %d %d %d %d\n", p, k, s.runs, s.output - s.input);
    }
  }
  print(d);
  print(dd);
  std::printf("live %d\n", live_.load());
  return 0;
}
