#pragma once
#include <deque>
#include "ap_int.h"
namespace hls {
template <class T> class stream {
	std::deque<T> q;
public:
	stream() {} explicit stream(const char *) {}
	stream(const stream &) = delete;
	T read() { if (q.empty()) shim_bad("read from an empty stream (blocks for ever)", 0, 0); T v = q.front(); q.pop_front(); return v; }
	void read(T &v) { v = read(); }
	bool read_nb(T &v) { if (q.empty()) return false; v = q.front(); q.pop_front(); return true; }
	void write(const T &v) { q.push_back(v); if (q.size() > (1u << 20)) shim_bad("runaway output", (long)q.size(), 0); }
	bool write_nb(const T &v) { write(v); return true; }
	void operator<<(const T &v) { write(v); } void operator>>(T &v) { v = read(); }
	bool empty() const { return q.empty(); } bool full() const { return false; } size_t size() const { return q.size(); }
};
}
