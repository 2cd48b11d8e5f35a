#include "streamsync.hpp"
#include <lib842/detail/barrier.h>
#include <lib842/detail/latch.h>
namespace Sync {
struct Barrier { lib842::detail::barrier b; explicit Barrier(long n) : b(n) {} };
struct Latch { lib842::detail::latch l; explicit Latch(long n) : l(n) {} };
Barrier *make_barrier(long n) { return new Barrier(n); }
void arrive(Barrier *b) { b->b.arrive_and_wait(); }
void interrupt(Barrier *b) { b->b.interrupt(); }
void destroy(Barrier *b) { delete b; }
Latch *make_latch(long n) { return new Latch(n); }
void count_down(Latch *l) { l->l.count_down(); }
void wait(Latch *l) { l->l.wait(); }
void destroy(Latch *l) { delete l; }
}
