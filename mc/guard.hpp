// A buffer that ends exactly at an unmapped page (reading or writing one past the end crashes, and the crash is reported with its state),
// and begins right after bytes that are checked to be untouched.
#ifndef MC_GUARD_HPP
#define MC_GUARD_HPP
#include <sys/mman.h>
#include <cstring>
#include <cstdlib>
struct Guard {
	char* base; size_t page; size_t last;
	Guard() : page(4096), last(0) { base = (char*)mmap(0, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + page, page, PROT_NONE); std::memset(base, 0x5a, page); }
	~Guard() { munmap(base, 2 * page); }
	Guard(Guard const&) = delete;
	template<class T> T* end() { return (T*)(base + page); }
	// n elements ending at the guard; what lies before is filled with 0x5a
	template<class T> T* put(T const* p, size_t n) { size_t z = last = n * sizeof(T); std::memset(base + page - z - 64, 0x5a, 64); if (z) std::memcpy(base + page - z, p, z); return (T*)(base + page - z); }
	template<class T> T* room(size_t n) { size_t z = last = n * sizeof(T); std::memset(base + page - z - 64, 0x5a, 64 + z); return (T*)(base + page - z); }
	bool before_intact() const { char const* q = base + page - last - 64; for (int i = 0; i < 64; ++i) if (q[i] != 0x5a) return false; return true; }
	template<class T> bool before_intact(size_t n) const { char const* q = base + page - n * sizeof(T) - 64; for (int i = 0; i < 64; ++i) if (q[i] != 0x5a) return false; return true; }
};
#endif
