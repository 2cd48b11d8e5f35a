// Chunk layouts used by the OpenCL harnesses (one kernel build each)
#pragma once
#include <cstddef>
struct ClCfg { size_t cs, stride; int fmt; }; // fmt: 0 always, 1 maybe, 2 in place compressed
static const ClCfg CLCFGS[] = {
	{64, 160, 0}, {8, 128, 0}, {24, 40, 0}, {512, 1024, 0}, {4096, 8192, 0}, {2048, 2056, 0}, {512, 16, 0}, {16, 4096, 0}, {65536, 131072, 0},
	{64, 64, 1}, {512, 512, 1}, {4096, 4096, 1}, {65536, 65536, 1}, {32, 32, 1}, {64, 96, 1}, {512, 648, 1},
	{512, 512, 2}, {128, 128, 2}, {4096, 4096, 2}, {65536, 65536, 2}, {64, 64, 2},
};
static const size_t NCLCFGS = sizeof CLCFGS / sizeof CLCFGS[0];
// further builds for the simulated runtime: the configurations of the cache check and of cl842_decompress
static const ClCfg CLXCFGS[] = {{64, 64, 0}, {128, 160, 0}, {65536, (size_t)-1 / 2, 0}, {16, 16, 0}, {16, 64, 0}, {16, 16, 1},
	// and the layouts beyond 4 GiB
#define G_ ((size_t)1 << 30)
	{512, 2 * G_ + 64, 0}, {2 * G_ + 64, 512, 0}, {G_ + 8, G_ - 8, 0}, {5 * G_, 1024, 0}, {16, 5 * G_, 0}, {G_ + 8, G_ + 8, 1}, {G_ + 16, G_ + 16, 2}, {5 * G_, 5 * G_, 1}, {5 * G_, 5 * G_, 2}};
static const size_t NCLXCFGS = sizeof CLXCFGS / sizeof CLXCFGS[0];
