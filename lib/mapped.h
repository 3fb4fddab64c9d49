// n bytes of address space that repeat a few megabytes of memory: transfers beyond 2^31 and 2^32 bytes without the memory.
#pragma once
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdio.h>
struct Mapped;
static Mapped *mapped_all[8];
struct Mapped {      // n bytes of address space that repeat `period` bytes of memory
	unsigned char *p = nullptr; size_t n = 0; static size_t period() { return 1031 * 4096; }
	Mapped(size_t len) {
		n = (len / period() + 2) * period(); int fd = memfd_create("mc", 0); if (fd < 0 || ftruncate(fd, period())) { perror("memfd"); _exit(2); }
		p = (unsigned char *)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		for (size_t o = 0; o < n; o += period()) if (mmap(p + o, period(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
		syscall(SYS_close, fd); for (auto &m : mapped_all) if (!m) { m = this; break; }
	}
	~Mapped() { for (auto &m : mapped_all) if (m == this) m = nullptr; munmap(p, n); }
};
// Forget the page-table entries of a range that has been used (its memory is shared and stays): keeps the resident size small.
inline void drop_mapped(const void *b, size_t len) {
	if (len < (1 << 16)) return; auto a = (const unsigned char *)b;
	for (auto m : mapped_all) if (m && a >= m->p && a + len <= m->p + m->n) { size_t s = ((size_t)(a - m->p) + 4095) & ~4095ul, e = (size_t)(a - m->p + len) & ~4095ul; if (e > s) madvise(m->p + s, e - s, MADV_DONTNEED); }
}
