// distributions behind plain calls
#include "distrib.h"
extern int verif_unit(void);
int main(int argc, char **argv) { return verif_unit(); }
static pd_spec_t spec;
#ifndef FEWER
int u_full(void) { return 1; }
int u_parse(int mode, char *s) { return mode == 0 ? pd_parse(&spec, s) : mode == 1 ? pd_parse_time(&spec, s) : pd_parse_bytes(&spec, s); }
#else
int u_parse(int mode, char *s) { return pd_parse(&spec, s); }
#endif
double u_sample(void) { return pd_sample(&spec); }
