// Stand-in for evmone (not available offline): the harness installs the function that plays the VM.
#include "evmone_c_wrapper.h"
#include <cstring>
extern "C" {
typedef evmone_result (*verif_evm_fn)(const evmone_host_interface*, void*, int, const evmone_message*, const uint8_t*, size_t);
verif_evm_fn verif_evm_execute = nullptr;
int          verif_evm_live    = 0;
void* evmone_create_executor() { verif_evm_live++; return (void*) &verif_evm_live; }
void  evmone_destroy_executor(void* e) { if (e) verif_evm_live--; }
evmone_result evmone_execute(void*, const evmone_host_interface* h, void* c, int rev, const evmone_message* m, const uint8_t* code, size_t n) {
  if (verif_evm_execute) return verif_evm_execute(h, c, rev, m, code, n);
  evmone_result r; memset(&r, 0, sizeof r); r.gas_left = (uint64_t) m->gas; return r;
}
void evmone_release_result(evmone_result* r) { if (r && r->release_callback) ((void (*)(void*)) r->release_callback)(r->release_context); if (r) { r->release_callback = nullptr; r->output_data = nullptr; r->output_size = 0; } }
}
