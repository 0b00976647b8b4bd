// C19: time arithmetic is exact and ordered.
#include "unit.h"
typedef __int128 i128; typedef struct timespec TS;
static i128 ns128(const TS &t) { return (i128)t.tv_sec * 1000000000 + t.tv_nsec; }
static std::string str(const TS &t) { return strf("(%ld s, %ld ns)", (long)t.tv_sec, (long)t.tv_nsec); }
static long floorUs(i128 d) { i128 q = d / 1000; if (d % 1000 < 0) q--; return (long)q; }

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C19"; spec.rule = "every pair of times from a grid of boundary seconds and nanoseconds through sum, difference, difference in microseconds and comparison, against 128-bit arithmetic; every microsecond count an int can hold through the timer conversions"; spec.assumptions = {"times are those of a running clock: not negative; comparison of equal times is not claimed"};
    bool T = thorough();
    std::vector<long> secs = {0, 1, 2, 3, 59, 60, 1000, 86400, 999999, 1000000, 2147482, 2147483, 2147484, 2147483646L, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 1L << 33}, ns = {0, 1, 2, 499, 500, 501, 998, 999, 1000, 1001, 1999, 2000, 2001, 499999, 500000, 999999, 1000000, 1000001, 123456789, 499999998, 499999999, 500000000, 500000001, 536870911, 536870912, 876543211, 999998999, 999999000, 999999001, 999999499, 999999500, 999999997, 999999998, 999999999};
    if (T) { for (long k = 1; k < 64; k++) ns.push_back(k * 15625000 - 1), ns.push_back(k * 15625000); for (long s = 4; s < 40; s++) secs.push_back(s); }
    for (size_t si = 0; si < secs.size(); si++) {
        Scenario s; s.name = strf("pairs-%zu", si); s.budget = 0;
        s.setup = [=](Kernel &) { Proc *p = spawnUnit("c19", [=](Module *m) {
            auto add = usym<void(TS *, TS *, TS *)>(m, "u_add"), sub = usym<void(TS *, TS *, TS *)>(m, "u_sub"); auto subus = usym<long(TS *, TS *)>(m, "u_sub_us"); auto leq = usym<int(TS *, TS *)>(m, "u_leq");
            for (long an : ns) for (long bs : secs) for (long bn : ns) {
                TS a = {secs[si], an}, b = {bs, bn}, r, q; i128 A = ns128(a), B = ns128(b); unitStep(hashStr(strf("%ld.%ld %ld.%ld", a.tv_sec, an, bs, bn)));
                add(&a, &b, &r); if (ns128(r) != A + B || r.tv_nsec < 0 || r.tv_nsec >= 1000000000) violate("%s + %s = %s", str(a).c_str(), str(b).c_str(), str(r).c_str());
                sub(&r, &b, &q); if (q.tv_sec != a.tv_sec || q.tv_nsec != a.tv_nsec) violate("%s + %s - %s = %s", str(a).c_str(), str(b).c_str(), str(b).c_str(), str(q).c_str());
                sub(&a, &b, &r); if (ns128(r) != A - B || r.tv_nsec < 0 || r.tv_nsec >= 1000000000) violate("%s - %s = %s", str(a).c_str(), str(b).c_str(), str(r).c_str());
                long us = subus(&a, &b); if (us != floorUs(A - B)) violate("%s - %s = %ld us", str(a).c_str(), str(b).c_str(), us);
                if (A != B && !!leq(&a, &b) != (A < B)) violate("%s is %s before %s", str(a).c_str(), A < B ? "not" : "taken as", str(b).c_str());
                // a difference not normalized, as when adding a long period given in nanoseconds
                if (bs <= 2147484) { TS u = {0, bs * 1000000000 + bn > 5000000000000L ? 5000000000000L + bn : bs * 1000000000 + bn}; add(&a, &u, &r); if (ns128(r) != A + ns128(u) || r.tv_nsec < 0 || r.tv_nsec >= 1000000000) violate("%s + %s = %s", str(a).c_str(), str(u).c_str(), str(r).c_str()); }
            }
        }); spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); }); };
        spec.scenarios.push_back(s);
    }
    for (int i = 0; i < 64; i++) {
        Scenario s; s.name = strf("timer-%d", i); s.budget = 0;
        s.setup = [=](Kernel &) { Proc *p = spawnUnit("c19", [=](Module *m) {
            void *f = moduleSym(m, "u_its"); if (!f) return; auto its = (long (*)(long, long))f; long n = (1L << 31) / 64;
            for (long a = i * n; a < (i + 1) * n; a += 1 << 16) { long bad = its(a, a + (1 << 16) - 1); unitStep(hashStr(strf("%ld", a))); K->unitSteps += (1 << 16) - 1; if (bad >= 0) violate("%ld us is not converted exactly", bad); }
        }); spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); }); };
        spec.scenarios.push_back(s);
    }
    return runCheck(spec, argc, argv);
}
