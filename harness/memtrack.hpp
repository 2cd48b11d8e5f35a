// malloc/free interposer of the non-sanitizer builds: fill patterns for fresh and freed memory, live-allocation accounting
#pragma once
#include <cstddef>
#include <cstdint>
namespace mem {
enum Fill { NONE, BYTE, SMALL16, RANDOM };
void set_fill(Fill f, uint64_t seed); // for all later allocations and frees (all threads)
void track(bool on);                  // starting empties the table of live blocks
struct Live { size_t blocks, bytes; };
Live live();                          // blocks allocated while tracking and not freed yet
size_t live_sizes(size_t *out, size_t max); // sizes of some live blocks
extern bool overflow;                 // table full: accounting of this window is unusable
void ignore(int delta);                // allocations of this thread are not accounted while the sum is positive
// allocation failures: while armed, allocations number k, k+1, ... k+n-1 of all threads (not counting exempt ones, see ignore) return NULL
void fail_arm(uint64_t k, uint64_t n);
uint64_t fail_disarm();               // returns the number of failures delivered
uint64_t fail_seen();                 // allocations counted since fail_arm
void self_test();                     // aborts when the interposer is not in effect
}
