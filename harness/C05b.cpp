// The other half of the C05 interoperability section: the same channel code built for a CPU without BMI2.
#include "emp-tool/io/mem_io_channel.h"
#ifdef __BMI2__
#error this file must be built without BMI2
#endif
// returns the number of bytes sent; out must be large enough
size_t nobmi_send(const bool *d, size_t n, char *out) { emp::MemIO io; io.send_bool(const_cast<bool *>(d), n); size_t k = io.size; io.recv_data(out, k); return k; }
void nobmi_recv(const char *in, size_t k, bool *d, size_t n) { emp::MemIO io; io.send_data(in, k); io.recv_bool(d, n); }
