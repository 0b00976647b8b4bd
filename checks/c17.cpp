// C17: the priority queue always yields a smallest element and keeps handles valid.
#include "unit.h"

struct PQ : UnitModel {
    int cap, fill; bool distinct; int done = 0; std::vector<int> keys; // fill: so many insertions come first, with distinct keys or not
    void *q = nullptr; struct El { void *h; int key; }; std::vector<El> t; // reference: the elements, by slot (h null: free)
    void *(*alloc)(int); void (*fre)(void *); void *(*insert)(void *, int, long); void (*remove)(void *, void *); void (*pop)(void *); void *(*top)(void *); int (*size)(void *), (*capacity)(void *), (*key)(void *); long (*val)(void *);
    PQ(Module *m, int c, std::vector<int> k, int f, bool dis) : cap(c), fill(f), distinct(dis), keys(k) {
        alloc = usym<void *(int)>(m, "u_alloc"); fre = usym<void(void *)>(m, "u_free"); insert = usym<void *(void *, int, long)>(m, "u_insert"); remove = usym<void(void *, void *)>(m, "u_remove"); pop = usym<void(void *)>(m, "u_pop"); top = usym<void *(void *)>(m, "u_top");
        size = usym<int(void *)>(m, "u_size"); capacity = usym<int(void *)>(m, "u_capacity"); key = usym<int(void *)>(m, "u_key"); val = usym<long(void *)>(m, "u_val");
    }
    void init() override { if (q) fre(q); q = alloc(cap); t.assign(cap, {nullptr, 0}); done = 0; }
    int count() { int n = 0; for (auto &e : t) n += e.h != nullptr; return n; }
    int ops() override { return (int)keys.size() + cap + 1; }
    bool enabled(int op) override { int nk = (int)keys.size(); if (done < fill && op >= nk) return false; if (done < fill && distinct) for (auto &e : t) if (e.h && e.key == keys[op]) return false;
        return op < nk ? count() < cap : op < nk + cap ? t[op - nk].h != nullptr : count() > 0; }
    void apply(int op) override {
        int nk = (int)keys.size(); if (done < fill) done++;
        if (op < nk) { int s = 0; while (t[s].h) s++; t[s].key = keys[op]; t[s].h = insert(q, keys[op], 1000 + s); }
        else if (op < nk + cap) { remove(q, t[op - nk].h); t[op - nk].h = nullptr; }
        else { void *h = top(q); pop(q); for (auto &e : t) if (e.h == h) e.h = nullptr; }
    }
    std::string judge() override {
        if (size(q) != count()) return strf("size %d instead of %d", size(q), count());
        if (capacity(q) != cap) return strf("capacity %d instead of %d", capacity(q), cap);
        void *h = top(q); bool known = false; int mn = INT_MAX; for (auto &e : t) if (e.h) mn = std::min(mn, e.key);
        for (size_t i = 0; i < t.size(); i++) if (t[i].h) {
            if (key(t[i].h) != t[i].key) return strf("the element inserted with key %d now has key %d", t[i].key, key(t[i].h));
            if (val(t[i].h) != 1000 + (long)i) return strf("the element with key %d lost its data", t[i].key);
            if (h == t[i].h) known = true;
            for (size_t j = 0; j < i; j++) if (t[j].h == t[i].h) return "two elements have the same handle";
        }
        if (!count()) return h ? "the empty queue has a top" : "";
        if (!known) return "the top is not an element of the queue";
        if (key(h) != mn) return strf("the top has key %d, but %d is present", key(h), mn);
        return "";
    }
    std::string probe() override { // emptying it
        std::string s; std::vector<int> ks; for (auto &e : t) if (e.h) ks.push_back(e.key);
        std::sort(ks.begin(), ks.end());
        for (size_t i = 0; i < ks.size(); i++) { void *h = top(q); int k = h ? key(h) : 0; if (!h || k != ks[i]) return strf("%zu pops: the top has key %d, but %d is present", i, k, ks[i]); pop(q); }
        return size(q) || top(q) ? "popping every element: the queue is not empty" : "";
    }
    std::string opName(int op) override { int nk = (int)keys.size(); return op < nk ? strf("insert(%d)", keys[op]) : op < nk + cap ? strf("remove(element %d)", op - nk) : "pop"; }
    std::string save() override { return std::string((char *)t.data(), t.size() * sizeof(El)) + (char)done; }
    void load(const std::string &s) override { memcpy((char *)t.data(), s.data(), s.size() - 1); done = s.back(); }
};

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C17"; spec.rule = "every operation (insert of each key, removal of each element, pop) from every reachable memory state of the queue, to closure or to the stated depth; a state is the memory of the queue plus the reference"; spec.assumptions = {"keys from the listed sets; insertions only while there is room"};
    bool T = thorough();
    auto add = [&](const std::string &n, int cap, std::vector<int> keys, size_t maxStates, int depth, int fill = 0, bool distinct = false) {
        Scenario s; s.name = strf("%s-cap%d", n.c_str(), cap); s.budget = 0;
        s.setup = [=](Kernel &) { Proc *p = spawnUnit("c17", [=](Module *m) { PQ pq(m, cap, keys, fill, distinct); searchStates(pq, maxStates, depth, cap > 4 ? 4 : 6); });
            spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); if (p->status) violate("exit status %d", p->status); }); };
        spec.scenarios.push_back(s);
    };
    for (int c = 1; c <= 3; c++) { add("3keys", c, {3, 5, 7}, 3000000, 1000); add("extreme", c, {INT_MIN, 0, INT_MAX}, 3000000, 1000); }
    add("2keys", 4, {1, 2}, 4000000, T ? 13 : 10); add("3keys", 4, {INT_MIN, -1, INT_MAX}, 4000000, T ? 11 : 9); add("4keys", 3, {1, 2, 3, 4}, 3000000, 1000); add("4keys", 5, {1, 2, 3, 4}, 3000000, T ? 9 : 8); add("5keys", 5, {1, 2, 3, 4, 5}, 3000000, T ? 8 : 7); add("7keys", 7, {1, 2, 3, 4, 5, 6, 7}, 3000000, T ? 7 : 6);
    add("full4", 7, {1, 2, 3, 4}, 4000000, T ? 9 : 8, 7); add("perm", 7, {1, 2, 3, 4, 5, 6, 7}, 4000000, 9, 7, true); add("full2", 8, {1, 2}, 4000000, T ? 11 : 10, 8); add("full3", 10, {1, 2, 3}, 4000000, 11, 10); add("full2", 16, {1, 2}, 4000000, 16, 15);
    return runCheck(spec, argc, argv);
}
