/* What the instrumented library calls in the command-line program: nothing. */
#include <stdint.h>
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }
