// barrier and latch behind functions compiled like the library's own sources (instrumented in the scheduler builds)
#pragma once
namespace Sync {
struct Barrier; struct Latch;
Barrier *make_barrier(long n); void arrive(Barrier *); void interrupt(Barrier *); void destroy(Barrier *);
Latch *make_latch(long n); void count_down(Latch *); void wait(Latch *); void destroy(Latch *);
}
