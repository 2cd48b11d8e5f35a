// Writes the kernel source and build options the library uses for every entry of CLCFGS and CLXCFGS (argument: directory).
// The OpenCL entry points that take them are replaced; nothing is compiled here.
#include "clcfg.hpp"
#include <lib842/cl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <dlfcn.h>
static std::string dir, last_src; static unsigned idx;
extern "C" {
CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) {
	last_src.clear();
	for (cl_uint i = 0; i < n; i++) last_src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
	static auto real = (decltype(&clCreateProgramWithSource))dlsym(RTLD_NEXT, "clCreateProgramWithSource");
	return real(c, n, s, len, err);
}
CL_API_ENTRY cl_int CL_API_CALL clBuildProgram(cl_program, cl_uint, const cl_device_id *, const char *opt, void (CL_CALLBACK *)(cl_program, void *), void *) {
	FILE *f = fopen((dir + "/k" + std::to_string(idx) + ".cl").c_str(), "wb"); fwrite(last_src.data(), 1, last_src.size(), f); fclose(f);
	f = fopen((dir + "/k" + std::to_string(idx) + ".opts").c_str(), "wb"); if (opt) fputs(opt, f); fclose(f);
	return CL_INVALID_VALUE;
}
// no cache file may satisfy the request
FILE *fopen64(const char *p, const char *m) { static auto real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen64"); if (strstr(p, "cl842_cache")) return nullptr; return real(p, m); }
FILE *fopen(const char *p, const char *m) { static auto real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen"); if (strstr(p, "cl842_cache")) return nullptr; return real(p, m); }
}
int main(int, char **av) {
	dir = av[1]; setenv("POCL_CACHE_DIR", dir.c_str(), 1);
	for (idx = 0; idx < NCLCFGS + NCLXCFGS; idx++) {
		const ClCfg &c = idx < NCLCFGS ? CLCFGS[idx] : CLXCFGS[idx - NCLCFGS];
		try { lib842::CLHostDecompressor h(c.cs, c.stride, c.fmt == 0 ? lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS : c.fmt == 1 ? lib842::CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS : lib842::CLDecompressorInputFormat::INPLACE_COMPRESSED_CHUNKS, false, false); }
		catch (const std::exception &) {}
	}
	return 0;
}
