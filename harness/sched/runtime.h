// Controlled scheduling of the code under test: one managed thread runs at a time, at every operation on shared objects
// (atomics, queues, mutexes, creation and joining of threads) the scheduler may let another one go on.
#pragma once
#include <cstddef>
#include <functional>
#include <string>

namespace sched {
// What the next operation is; used by strategies that hold a thread back just before one
enum Kind { LOAD, STORE, RMW, ENQUEUE, DEQUEUE, SIZE, LOCK, WAIT, CREATE, JOIN, YIELD, CALL, MEMORY, KINDS };

// makes the calling thread the first managed one; from mode 10 on also at calls of functions of the repository, from 20 on also at
// accesses to memory that several threads use (strategies as without the tens)
void start(unsigned long seed, int mode, long max_steps);
bool managed();                                           // is this thread under control?
void point(Kind k, const void *obj);                      // before an operation
void did(bool progress);                                  // after it: did it change anything?
void event(const char *what, const void *obj, long value, const char *type); // for the trace of the run
std::string trace();                                      // JSON array of the events so far
long steps();
unsigned long choose(unsigned long n);                    // 0..n-1, the scheduler's choice
int self();

void block_until(const std::function<bool()> &ready);     // the thread can not go on before ready()
long spawn(const std::function<void()> &f);               // runs f in a new managed thread
bool finished(long id);
// while there is one, the thread's accesses to memory are not looked at (the stand-ins do their work in one step)
struct Quiet {
    Quiet();
    ~Quiet();
};
void lock_world();                                        // for threads that are not under control
void unlock_world();
}
