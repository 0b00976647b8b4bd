// the bounded queue behind plain calls
#include "queue.h"
extern int verif_unit(void);
int main(int argc, char **argv) { return verif_unit(); }
void *u_alloc(int cap) { return queue_alloc(cap); }
void u_free(void *q) { queue_free(q); }
void *u_enqueue(void *q, int key, long val) { data_t d; d.value = val; return queue_enqueue(q, key, d); }
void u_dropall(void *q) { queue_drop(q); }
void u_dqhead(void *q) { queue_dequeue_head(q); }
void u_dqtail(void *q) { queue_dequeue_tail(q); }
void *u_head(void *q) { return queue_head(q); }
void *u_tail(void *q) { return queue_tail(q); }
int u_size(void *q) { return queue_size(q); }
int u_capacity(void *q) { return queue_capacity(q); }
int u_key(void *h) { return queue_node_key(h); }
long u_val(void *h) { return queue_node_data(h).value; }
