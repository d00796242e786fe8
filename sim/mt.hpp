// Multi-threaded runs: real threads, one of which runs at a time. Every access
// to heap and global memory made by the compiled library (and the harness) is
// reported by the compiler's thread-sanitizer instrumentation to mt.cpp, which
// decides where threads are switched and checks that conflicting accesses are
// ordered by happens-before.
#ifndef SIM_MT_HPP
#define SIM_MT_HPP

#include "core.hpp"

#include <memory>

namespace sim {

enum { MAXT = 4 };

// Parts of a multi-threaded plan: local operations of every thread
std::vector<std::vector<int>> ops_of_threads(Plan const& p, int n);

// Runs body(t) for every thread alone (in processes of their own), then all of
// them together under the schedule in plan.extra, and compares the results.
// before(t) is called in the thread before body(t), after(t) after it.
struct MtBody {
  virtual ~MtBody() {}
  virtual void run(int t) = 0;
  virtual void op_boundary(int t, int op) {}
};
void mt_run(Plan const& p, int n, MtBody& b);

void mt_init();                       // in a fresh child
void* mt_alloc(std::size_t n);        // nullptr: no room
void mt_free(void* p);
bool mt_owns(void const* p);
bool mt_owns_all();                   // the arena is in use
std::size_t mt_size(void const* p);
struct MtMark {
  std::uintptr_t bump[MAXT + 1];
};
MtMark mt_mark();
long mt_lost(MtMark const& m);        // blocks allocated since then that nothing refers to
void mt_boundary();                   // between operations
bool mt_note_failure();               // true: in the concurrent phase
void random_schedule(Rng& r, Plan& p); // fills extra

// Objects that are copied by several threads (scenario O)
struct Originals {
  virtual ~Originals() {}
};
extern std::shared_ptr<Originals> (*make_originals[3])(u64 seed);
extern SIM_TLS Originals const* my_originals;

} // namespace sim
#endif
