// Deterministic thread scheduler: while active, exactly one of the case's threads runs at a time and every synchronisation
// call (pthread mutex / condition variable / create / join / once / rwlock, sleeps) and, in sources instrumented with
// -fsanitize=thread, every atomic and a fraction of the plain memory accesses is a point where the seeded strategy may switch.
#pragma once
#include <cstdint>
#include <string>
#include <functional>
namespace vs {
struct Params {
	uint64_t seed = 1;
	int strategy = 0;          // 0: random walk, 1: priorities with change points (PCT), 2: switch at blocking points only
	unsigned p_sync = 30;      // random walk: chance in 100 of a switch at a synchronisation point
	unsigned p_access = 0;     // chance in 10000 of a switch at a plain access (atomics: treated like synchronisation points)
	unsigned depth = 2;        // PCT: number of priority change points
	unsigned horizon = 400;    // PCT: change points are drawn from the first `horizon` points
	unsigned spurious = 0;     // chance in 1000, per scheduling decision, that a condition wait is woken spuriously
	uint64_t max_steps = 3000000;
};
// on_stuck(kind, description): kind "deadlock" or "livelock"; must not return
void begin(const Params &, void (*on_stuck)(const char *kind, const std::string &what, void *), void *arg);
// Back to normal; false if threads of the case are still alive (their number in *alive)
bool end(unsigned *alive);
bool active();
void yield();                       // explicit point (counts as a synchronisation point)
void block_until(const std::function<bool()> &pred, const char *what); // waits without primitives of the code under test
int self();                         // task number of the calling thread
unsigned created();                 // tasks created since begin()
uint64_t steps(), switches();
uint64_t trace_hash();              // identifies the schedule taken
void selftest();
}
