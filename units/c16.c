// command templates behind plain calls
#include "ccmd.h"
#include <stdlib.h>
extern int verif_unit(void);
int main(int argc, char **argv) { return verif_unit(); }
void *u_malloc(size_t n) { return malloc(n); }
void u_free(void *p) { free(p); }
void *u_new(void) { ccmd_t *q; ccmd_init(&q); return q; }
void u_destroy(void *q) { ccmd_t *p = q; ccmd_destroy(&p); }
void u_add(void *q, int type, double val, double step, long off, int sync, int nack, int port, int nskip) {
    pd_spec_t v = pd_build_fixed(val);
    if (step) v = (pd_spec_t) { .prob = ARITH_SEQ, .val = val, .std = step, .min = val, .max = val + 100 * step };
    ccmd_add(q, type, &v); ccmd_node_t *n = ccmd_last(q); n->n_skip = nskip;
#ifndef FEWER
    n->pd_val2 = pd_build_fixed(off); n->store.wait_sync = sync; n->resp.n_ack = nack; n->fwd.fwd_port = port;
#endif
}
// position of the command reached by skipping n commands from the i-th one, -1 past the end
int u_skip(void *q, int i, int n) {
    ccmd_node_t *a = ((ccmd_t *)q)->head, *b; while (i-- > 0) a = a->next;
    b = ccmd_skip(a, n); if (!b) return -1;
    int k = 0; for (a = ((ccmd_t *)q)->head; a && a != b; a = a->next) k++;
    return a ? k : -2;
}
int u_dump(void *q, void *m, unsigned avail) { ((message_t *)m)->req_size = avail; return ccmd_dump(q, m); }
#ifndef FEWER
int u_full(void) { return 1; }
#endif
