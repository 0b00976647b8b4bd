// the priority queue behind plain calls
#include "priority_queue.h"
extern int verif_unit(void);
int main(int argc, char **argv) { return verif_unit(); }
void *u_alloc(int cap) { return pqueue_alloc(cap); }
void u_free(void *q) { pqueue_free(q); }
void *u_insert(void *q, int key, long val) { data_t d; d.value = val; return pqueue_insert(q, key, d); }
void u_remove(void *q, void *h) { pqueue_remove(q, h); }
void u_pop(void *q) { pqueue_pop(q); }
void *u_top(void *q) { return pqueue_top(q); }
int u_size(void *q) { return pqueue_size(q); }
int u_capacity(void *q) { return pqueue_capacity(q); }
int u_key(void *h) { return pqueue_node_key(h); }
long u_val(void *h) { return pqueue_node_data(h).value; }
