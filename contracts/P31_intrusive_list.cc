// Intrusive list: every operation from every state is the corresponding operation on sequences (one inductive
// step, so all histories), and touches only the links of the item, its neighbours and the list ends.
// VC-BOUNDED(list_.*): two lists of together up to 5 items, all states and all operations (links further away than one step are not touched: obligation "frame")
// VC-OPT(list_history): fuzz=5 native_only=1
#include "vc.hpp"
#include <new>
#include <memory>
#include "util/util_intrusive_list.hpp"
using namespace freewebrtc::util;
struct Item {
    int id;
    IntrusiveList<Item>::Link link;
    explicit Item(int i) : id(i), link(*this) {}
    Item(Item&& o) : id(o.id), link(*this, std::move(o.link)) {}
};
using List = IntrusiveList<Item>;
static constexpr int N = 5;
struct Seq { // the abstract list
    int v[8];
    int n = 0;
    int find(int x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; }
    void erase(int x) { int p = find(x); if (p < 0) return; for (int i = p; i + 1 < n; ++i) v[i] = v[i + 1]; --n; }
    void back(int x) { v[n++] = x; }
    void front(int x) { for (int i = n; i > 0; --i) v[i] = v[i - 1]; v[0] = x; ++n; }
};
struct World {
    alignas(Item) unsigned char mem[N + 1][sizeof(Item)] = {};
    Item* it[N + 1] = {};
    std::unique_ptr<List> l[2];
    Seq s[2];
    World() {
        for (int i = 0; i < N; ++i) it[i] = new (mem[i]) Item(i);
        for (auto& x : l) x = std::make_unique<List>(&Item::link);
    }
    ~World() { for (auto* x : it) if (x) x->~Item(); }
    int where(int i) const { return s[0].find(i) >= 0 ? 0 : s[1].find(i) >= 0 ? 1 : -1; }
    void detach(int i) { s[0].erase(i); s[1].erase(i); }
    void push(int j, int i, bool back) {
        detach(i);
        if (back) { l[j]->push_back(*it[i]); s[j].back(i); } else { l[j]->push_front(*it[i]); s[j].front(i); }
    }
    void look() {
        for (int j = 0; j < 2; ++j) {
            if (!l[j]) continue;
            ENSURE(l[j]->empty() == (s[j].n == 0), "empty iff no items");
            const List& cl = *l[j];
            const auto f = l[j]->front(), b = l[j]->back();
            const auto cf = cl.front(), cb = cl.back();
            ENSURE(f.is_some() == (s[j].n > 0) && b.is_some() == (s[j].n > 0) && cf.is_some() == (s[j].n > 0) && cb.is_some() == (s[j].n > 0), "ends exist iff not empty");
            if (s[j].n) {
                ENSURE(&f.unwrap().get() == it[s[j].v[0]] && &cf.unwrap().get() == it[s[j].v[0]], "front is the first item");
                ENSURE(&b.unwrap().get() == it[s[j].v[s[j].n - 1]] && &cb.unwrap().get() == it[s[j].v[s[j].n - 1]], "back is the last item");
            }
        }
        for (int i = 0; i < N; ++i) {
            if (!it[i]) continue;
            ENSURE(it[i]->link.in_list() == (where(i) >= 0), "an item knows whether it is in a list");
            ENSURE(&it[i]->link.get() == it[i], "a link knows its item");
        }
    }
    void drain(bool fwd) { // the whole sequence, by popping
        for (int j = 0; j < 2; ++j) {
            if (!l[j]) continue;
            const int n = s[j].n;
            for (int k = 0; k < n; ++k) {
                const int i = fwd ? s[j].v[0] : s[j].v[s[j].n - 1];
                const auto e = fwd ? l[j]->front() : l[j]->back();
                ENSURE(e.is_some() && &e.unwrap().get() == it[i], "items come in sequence order");
                if (fwd) l[j]->pop_front(); else l[j]->pop_back();
                s[j].erase(i);
                ENSURE(!it[i]->link.in_list(), "a popped item is in no list");
            }
            ENSURE(l[j]->empty(), "no further items");
        }
    }
};
static void step(World& w, unsigned op, int i, int j) {
    switch (op) {
    case 0: w.push(j, i, true); break;
    case 1: w.push(j, i, false); break;
    case 2: if (w.s[j].n) { w.l[j]->pop_back(); w.s[j].erase(w.s[j].v[w.s[j].n - 1]); } break;
    case 3: if (w.s[j].n) { w.l[j]->pop_front(); w.s[j].erase(w.s[j].v[0]); } break;
    case 4: w.it[i]->link.remove(); w.detach(i); break;
    case 5: w.l[j]->clear(); w.s[j].n = 0; break;
    case 6: w.it[i]->~Item(); w.it[i] = nullptr; w.detach(i); break;
    case 7: { // move an item: the new one takes its place
        Item* n = new (w.mem[N]) Item(std::move(*w.it[i]));
        ENSURE(!w.it[i]->link.in_list(), "a moved-from item is in no list");
        w.it[i]->~Item();
        w.it[i] = n;
        break;
    }
    case 8: { // move construct a list, the old one is empty and usable
        auto n = std::make_unique<List>(std::move(*w.l[j]));
        ENSURE(w.l[j]->empty(), "a moved-from list is empty");
        w.l[j] = std::move(n);
        break;
    }
    case 9: // move assign
        *w.l[j] = std::move(*w.l[1 - j]);
        w.s[j] = w.s[1 - j];
        w.s[1 - j].n = 0;
        break;
    case 10: w.l[j].reset(); w.s[j].n = 0; break;
    case 11: *w.l[j] = std::move(*w.l[j]); break;
    case 12: { // a moved-from list is usable
        auto n = std::make_unique<List>(std::move(*w.l[j]));
        n.reset();
        w.s[j].n = 0;
        w.push(j, i, true);
        w.look();
        w.drain(true);
        break;
    }
    }
}
static void build(World& w) {
    const auto n0 = vc_fork(vc::any_in<size_t>(0, 5, "n0"));
    const auto n1 = vc_fork(vc::any_in<size_t>(0, 5 - n0, "n1"));
    for (size_t k = 0; k < n0; ++k) w.push(0, static_cast<int>(k), true);
    for (size_t k = 0; k < n1; ++k) w.push(1, static_cast<int>(n0 + k), true);
}
CONTRACT(list_step) {
    World w;
    build(w);
    w.look();
    const auto op = vc_fork(vc::any_in<unsigned>(0, 12, "op"));
    const int i = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, N - 1, "item")));
    const int j = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, 1, "list")));
    step(w, op, i, j);
    w.look();
    w.drain(vc_fork(vc::any_in<unsigned>(0, 1, "direction")));
    COVER("end");
}
CONTRACT(list_frame) {
    // single-item operations leave every link but those next to the item and to the list end untouched
    World w;
    build(w);
    const auto op = vc_fork(vc::any_in<unsigned>(0, 4, "op"));
    const int i = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, N - 1, "item")));
    const int j = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, 1, "list")));
    bool near[N] = {};
    auto around = [&](int x) {
        const int q = w.where(x);
        if (q < 0) return;
        const int p = w.s[q].find(x);
        for (int d = -1; d <= 1; ++d) if (p + d >= 0 && p + d < w.s[q].n) near[w.s[q].v[p + d]] = true;
    };
    near[i] = true;
    around(i);
    if (w.s[j].n) { around(w.s[j].v[0]); around(w.s[j].v[w.s[j].n - 1]); }
    unsigned char before[N][sizeof(Item)];
    for (int k = 0; k < N; ++k) std::memcpy(before[k], w.mem[k], sizeof(Item));
    step(w, op, i, j);
    for (int k = 0; k < N; ++k)
        if (!near[k]) ENSURE(std::memcmp(before[k], w.mem[k], sizeof(Item)) == 0, "frame: links further away are unchanged");
    COVER("end");
}
CONTRACT(list_history) {
    World w;
    const auto n = vc_fork(vc::any_in<unsigned>(2, vc_symbolic() ? 2 : 40, "ops"));
    for (unsigned k = 0; k < n; ++k) {
        const auto op = vc_fork(vc::any_in<unsigned>(0, 12, "op"));
        const int i = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, N - 1, "item")));
        const int j = static_cast<int>(vc_fork(vc::any_in<unsigned>(0, 1, "list")));
        if (!w.it[i] || !w.l[j] || !w.l[1 - j]) continue;
        if (op == 6 || op == 10 || (op == 7 && w.it[i] == reinterpret_cast<Item*>(w.mem[N]))) continue;
        if (op == 7) { // keep items in place: move there and back
            Item tmp(std::move(*w.it[i]));
            w.it[i]->~Item();
            w.it[i] = new (w.mem[i]) Item(std::move(tmp));
            continue;
        }
        step(w, op, i, j);
        w.look();
    }
    w.drain(true);
    COVER("end");
}
