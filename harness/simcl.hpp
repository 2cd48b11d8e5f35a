// A simulated OpenCL runtime inside the process: platforms and devices as configured, an object ledger, exact-size
// device buffers, commands that run only when something waits for them, and calls that fail on request. Kernels are the
// library's own, compiled natively (see build_clnative in run.py); a program whose source or options were not among
// those captured becomes a stub that reports 777 for every chunk.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace simcl {
struct DevCfg { bool gpu, available; std::string name; bool accel = false; };
typedef std::vector<DevCfg> PlatCfg;
// Everything below applies to this process. configure() must not be called while objects are alive.
void configure(const std::vector<PlatCfg> &platforms, bool no_platform_is_error = false);
void configure_default(); // one platform, one GPU
struct Chosen { int platform = -1; std::vector<int> devices; }; // of the last clCreateContext
Chosen last_context();
int last_queue_device();
bool is_default();

void arm(uint64_t k, int code, bool sticky); // the k-th fallible call (1 = the next) fails with code; sticky: and all later ones
void arm_exec(uint64_t k, int code);         // the k-th kernel execution fails
struct Armed { uint64_t calls, failed; std::string first; };
Armed disarm();                              // calls made since arm(), how many failed
void build_fails(bool on, const std::string &log); // clBuildProgram fails with CL_BUILD_PROGRAM_FAILURE and this log
void order_seed(uint64_t s);                 // work items run in an order chosen by s (0: ascending)
void yields(unsigned permille);              // calls give up the processor now and then
size_t live_objects();                       // contexts, queues, programs, kernels, buffers, events
std::string live_list();
std::string misuse();                        // first misuse of the interface since the last call, or ""
uint64_t kernels_run(), stub_runs(), binaries_rejected(), binaries_used();
void new_fails(int64_t k, bool sticky);      // the k-th operator new of this thread fails (0: the next; -1: none)
uint64_t new_seen(), new_failed();           // allocations asked for, refused, since new_fails()
}
