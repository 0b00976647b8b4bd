// time arithmetic behind plain calls
#include "timespec.h"
extern int verif_unit(void);
int main(int argc, char **argv) { return verif_unit(); }
void u_add(struct timespec *a, struct timespec *b, struct timespec *r) { *r = ts_add(*a, *b); }
void u_sub(struct timespec *a, struct timespec *b, struct timespec *r) { *r = ts_sub(*a, *b); }
long u_sub_us(struct timespec *a, struct timespec *b) { return ts_sub_us(*a, *b); }
int u_leq(struct timespec *a, struct timespec *b) { return ts_leq(*a, *b); }
#ifndef FEWER
// first value in [from, to] whose timer setting is not exact, or -1
long u_its(long from, long to) {
    for (long us = from; us <= to; us++) {
        struct itimerspec t = us_to_its((int)us);
        if (t.it_value.tv_sec != us / 1000000 || t.it_value.tv_nsec != us % 1000000 * 1000 || t.it_interval.tv_sec || t.it_interval.tv_nsec || its_to_us(t) != us) return us;
        t.it_value.tv_nsec += 999; // what is left of a microsecond
        if (its_to_us(t) != us) return us;
    }
    return -1;
}
#endif
