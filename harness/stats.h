// the parts of a report are computed in an order chosen by the harness, each
// in one piece, instead of by threads
#pragma once
#include "regex.h"
#include <functional>
#include <future>
#include <memory>
#include <vector>
extern unsigned ksymOrder; // when they are computed
namespace std {
struct ksym_future {
  struct State { function<string()> f; string value; bool done{}; };
  inline static vector<shared_ptr<State>> pending;
  shared_ptr<State> s;
  static void run(State& x) {
    if (!x.done) x.value = x.f();
    x.done = true;
  }
  string get() {
    if (ksymOrder == 1) // the last first
      while (!pending.empty()) {
        const auto p = pending.back();
        pending.pop_back();
        run(*p);
      }
    run(*s); // otherwise when needed
    return s->value;
  }
};
template <typename F> ksym_future ksym_async(launch, F f) {
  ksym_future r{make_shared<ksym_future::State>()};
  r.s->f = f;
  if (ksymOrder == 2) ksym_future::run(*r.s); // at once
  else ksym_future::pending.push_back(r.s);
  return r;
}
}
#define async(...) ksym_async(__VA_ARGS__)
