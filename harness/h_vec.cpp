// C18: containers against a model of shared memory cells.
#include <cstddef>
#include "fields.h"
#include "parts.h"
#include "vec_buffers.h"
#include "vec_cast.h"
#include "vec_slice.h"
#include "vec_vector.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
using namespace hx;
namespace vec = quadiron::vec;
namespace simd = quadiron::simd;
#define S(x) str128((u128)(x)).c_str()

enum EK { OWN, WRAP, SLICE, VIEW, ZEXT };
static const char* EN[] = {"vector", "wrapper", "slice", "view", "zero-extended"};

// The memory behind the containers: bases[b][cell]
#ifdef HX_M_vector
template <typename T> struct World {
    const Fld<T>& f;
    const gf::Field<T>& g;
    Rng& r;
    std::string hist;

    struct Ent {
        EK kind;
        std::unique_ptr<vec::Vector<T>> v;
        int base = -1;   // cells of bases[base]
        int off = 0;     // first cell (vector, wrapper, slice)
        int n = 0;       // visible length
        int mem_len = 0; // memory-level length
        Ent* parent = nullptr;
        int voff = 0, step = 1, N = 0; // view
        int kids = 0;
    };
    std::vector<std::vector<u128>> bases;
    std::vector<std::pair<std::vector<T>, int>> ext; // caller memory: storage, base index
    std::vector<std::unique_ptr<Ent>> es;
    static constexpr int GUARD = 8;

    World(const Fld<T>& f_, Rng& r_) : f(f_), g(*f_.gf), r(r_) { ext.reserve(64); }
    ~World()
    {
        // children first
        while (!es.empty()) {
            for (size_t i = es.size(); i-- > 0;)
                if (es[i]->kids == 0) {
                    if (es[i]->parent)
                        es[i]->parent->kids--;
                    es.erase(es.begin() + i);
                    break;
                }
        }
    }
    void say(const std::string& s)
    {
        hist += s + "; ";
        if (hist.size() > 2500)
            hist = "..." + hist.substr(hist.size() - 2300);
        R().set_case("vector:" + f.name, f.name + " " + hist);
        R().obs("operations");
    }
    // value of element i, and its cell
    std::pair<int, int> cell(const Ent& e, int i) const
    {
        switch (e.kind) {
        case VIEW: return cell(*e.parent, (e.voff + e.step * i) % e.N);
        case ZEXT: return i < e.parent->n ? cell(*e.parent, i) : std::make_pair(-1, 0);
        default: return {e.base, e.off + i};
        }
    }
    u128 val(const Ent& e, int i) const
    {
        auto c = cell(e, i);
        return c.first < 0 ? 0 : bases[c.first][c.second];
    }
    void put(const Ent& e, int i, u128 v)
    {
        auto c = cell(e, i);
        bases[c.first][c.second] = v;
    }
    std::string id(const Ent* e) const
    {
        for (size_t i = 0; i < es.size(); i++)
            if (es[i].get() == e)
                return fmt("%s%zu", EN[e->kind], i);
        return "?";
    }
    void bad(const std::string& k, const std::string& d) { R().viol(k + ":" + f.name, d); }
    bool verify()
    {
        for (auto& e : es) {
            const vec::Vector<T>& v = *e->v;
            if (v.get_n() != e->n) {
                bad(std::string("length:") + EN[e->kind], fmt("%s has length %d, expected %d after %s", id(e.get()).c_str(), v.get_n(), e->n, hist.c_str()));
                return false;
            }
            if ((e->kind == OWN || e->kind == WRAP || e->kind == SLICE) && v.get_mem_len() != e->mem_len) {
                bad(std::string("mem-len:") + EN[e->kind], fmt("%s has memory length %d, expected %d after %s", id(e.get()).c_str(), v.get_mem_len(), e->mem_len, hist.c_str()));
                return false;
            }
            for (int i = 0; i < e->n; i++)
                if ((u128)v.get(i) != val(*e, i)) {
                    bad(std::string("content:") + EN[e->kind], fmt("%s[%d] is %s, expected %s after %s", id(e.get()).c_str(), i, S(v.get(i)), S(val(*e, i)), hist.c_str()));
                    return false;
                }
            R().obs("elements_compared", e->n);
        }
        for (auto& x : ext) {
            auto& b = bases[x.second];
            for (size_t i = 0; i < x.first.size(); i++) {
                bool guard = i < GUARD || i >= x.first.size() - GUARD;
                u128 want = guard ? (u128)(T)0x5a5a5a5a : b[i - GUARD];
                if ((u128)x.first[i] != want) {
                    bad("caller-memory", fmt("cell %ld of caller memory (%zu usable) is %s, expected %s after %s", (long)i - GUARD, b.size(), S(x.first[i]), S(want), hist.c_str()));
                    return false;
                }
            }
            R().obs("guards_checked");
        }
        return true;
    }
    Ent* pick(int mask)
    {
        std::vector<Ent*> o;
        for (auto& e : es)
            if (mask >> e->kind & 1)
                o.push_back(e.get());
        return o.empty() ? nullptr : o[r.below(o.size())];
    }
    static constexpr int MEM = 1 << OWN | 1 << WRAP | 1 << SLICE;
    static constexpr int ALL = MEM | 1 << VIEW | 1 << ZEXT;
    // do the memory windows of a and b overlap?
    bool overlap(const Ent& a, const Ent& b) const
    {
        if (a.base != b.base)
            return false;
        return a.off < b.off + b.mem_len && b.off < a.off + a.mem_len;
    }
    Ent* add(std::unique_ptr<Ent> e)
    {
        es.push_back(std::move(e));
        return es.back().get();
    }
    void create()
    {
        auto e = std::make_unique<Ent>();
        unsigned k = es.empty() ? r.below(2) : r.below(7);
        if (k == 0 || k == 6) { // owned; sometimes from a list
            e->kind = OWN;
            e->base = bases.size();
            if (r.chance(20)) {
                u128 a = f.elem(r), b = f.elem(r), c = f.elem(r);
                e->v = std::unique_ptr<vec::Vector<T>>(new vec::Vector<T>(g, {(T)a, (T)b, (T)c}));
                bases.push_back({a, b, c});
                e->n = e->mem_len = 3;
            } else {
                e->n = e->mem_len = 1 + r.below(40);
                e->v = std::make_unique<vec::Vector<T>>(g, e->n);
                std::vector<u128> b(e->n);
                for (int i = 0; i < e->n; i++) {
                    b[i] = f.elem(r);
                    e->v->set(i, (T)b[i]);
                }
                bases.push_back(b);
            }
            if (!simd::addr_is_aligned(e->v->get_mem()) || (uintptr_t)e->v->get_mem() % alignof(T))
                bad("alignment", "an allocated vector is not aligned");
            say(fmt("vector%zu(n=%d)", es.size(), e->n));
        } else if (k == 1) {
            if (ext.size() >= 60)
                return;
            e->kind = WRAP;
            e->mem_len = 1 + r.below(40);
            e->n = r.chance(50) ? e->mem_len : 1 + r.below(e->mem_len);
            e->base = bases.size();
            std::vector<T> m(e->mem_len + 2 * GUARD, (T)0x5a5a5a5a);
            std::vector<u128> b(e->mem_len);
            for (int i = 0; i < e->mem_len; i++) {
                b[i] = f.elem(r);
                m[GUARD + i] = (T)b[i];
            }
            bases.push_back(b);
            ext.emplace_back(std::move(m), e->base);
            e->v = std::make_unique<vec::Vector<T>>(g, e->n, ext.back().first.data() + GUARD, e->mem_len);
            say(fmt("wrapper%zu(n=%d of %d)", es.size(), e->n, e->mem_len));
        } else if (k == 2 || k == 3) {
            Ent* p = pick(MEM);
            if (!p || p->n == 0)
                return;
            e->kind = SLICE;
            int off = r.below(p->n), n = r.below(p->n + 4);
            e->v = std::make_unique<vec::Slice<T>>(p->v.get(), n, off);
            e->base = p->base;
            e->off = p->off + off;
            e->n = e->mem_len = std::min(n, p->n - off);
            e->parent = p;
            e->voff = off;
            e->N = p->n;
            p->kids++;
            if (((vec::Slice<T>*)e->v.get())->get_offset() != off)
                bad("slice-offset", "wrong offset");
            say(fmt("slice%zu(%s,n=%d,off=%d)", es.size(), id(p).c_str(), n, off));
        } else if (k == 4) {
            Ent* p = pick(MEM);
            if (!p || p->n == 0)
                return;
            e->kind = VIEW;
            e->n = r.below(p->n + 1);
            e->voff = r.below(2 * p->n);
            e->step = 1 + r.below(p->n);
            e->N = p->n;
            e->parent = p;
            p->kids++;
            e->v = std::make_unique<vec::View<T>>(p->v.get(), e->n, e->voff, e->step);
            say(fmt("view%zu(%s,n=%d,off=%d,step=%d)", es.size(), id(p).c_str(), e->n, e->voff, e->step));
        } else {
            Ent* p = pick(MEM);
            if (!p)
                return;
            e->kind = ZEXT;
            e->n = p->n + r.below(10);
            e->base = p->base;
            e->off = p->off;
            e->mem_len = p->mem_len;
            e->parent = p;
            p->kids++;
            e->v = std::make_unique<vec::ZeroExtended<T>>(*p->v, e->n);
            say(fmt("zext%zu(%s,n=%d)", es.size(), id(p).c_str(), e->n));
        }
        R().obs(std::string("made_") + EN[e->kind]);
        add(std::move(e));
    }
    void drop()
    {
        std::vector<size_t> o;
        for (size_t i = 0; i < es.size(); i++)
            if (es[i]->kids == 0)
                o.push_back(i);
        if (o.empty())
            return;
        size_t i = o[r.below(o.size())];
        say("drop " + id(es[i].get()));
        if (es[i]->parent)
            es[i]->parent->kids--;
        es.erase(es.begin() + i);
    }
    u128 memval(const Ent& e, int i) const { return bases[e.base][e.off + i]; }
    void memput(const Ent& e, int i, u128 v) { bases[e.base][e.off + i] = v; }

    void op()
    {
        switch (r.below(30)) {
        case 0:
        case 1:
        case 2: { // write through any alias
            Ent* e = pick(MEM | 1 << VIEW);
            if (!e || e->n == 0)
                return;
            int i = r.below(e->n);
            u128 v = f.elem(r);
            say(fmt("%s.set(%d,%s)", id(e).c_str(), i, S(v)));
            e->v->set(i, (T)v);
            put(*e, i, v);
            return;
        }
        case 3: {
            Ent* e = pick(MEM);
            if (!e)
                return;
            u128 v = f.elem(r);
            say(fmt("%s.fill(%s)", id(e).c_str(), S(v)));
            e->v->fill((T)v);
            for (int i = 0; i < e->n; i++)
                memput(*e, i, v);
            return;
        }
        case 4: {
            Ent* e = pick(MEM | 1 << VIEW);
            if (!e)
                return;
            say(id(e) + ".zero_fill()");
            e->v->zero_fill();
            for (int i = 0; i < e->n; i++)
                put(*e, i, 0);
            return;
        }
        case 5: {
            Ent* e = pick(MEM | 1 << VIEW);
            if (!e)
                return;
            u128 c = f.elem(r);
            say(fmt("%s.mul_scalar(%s)", id(e).c_str(), S(c)));
            e->v->mul_scalar((T)c);
            for (int i = 0; i < e->n; i++)
                put(*e, i, f.mul(val(*e, i), c));
            return;
        }
        case 6: {
            Ent* e = pick(MEM);
            if (!e)
                return;
            u128 c = f.elem(r), k = c;
            say(fmt("%s.mul_beta(%s)", id(e).c_str(), S(c)));
            e->v->mul_beta((T)c);
            for (int i = 1; i < e->n; i++) {
                memput(*e, i, f.mul(memval(*e, i), k));
                k = f.mul(k, c);
            }
            return;
        }
        case 7:
        case 8: { // whole-vector operations on equal lengths
            Ent* e = pick(MEM);
            if (!e)
                return;
            std::vector<Ent*> o;
            for (auto& x : es)
                if ((MEM >> x->kind & 1) && x->n == e->n && (x.get() == e || !overlap(*x, *e)))
                    o.push_back(x.get());
            Ent* s = o[r.below(o.size())];
            bool mul = r.chance(50) && e->kind != SLICE && s->kind != SLICE && e->kind != WRAP && s->kind != WRAP;
            say(fmt("%s.%s(%s)", id(e).c_str(), mul ? "hadamard_mul" : "add", id(s).c_str()));
            if (mul)
                e->v->hadamard_mul(s->v.get());
            else
                e->v->add(s->v.get());
            for (int i = 0; i < e->n; i++)
                memput(*e, i, mul ? f.mul(memval(*e, i), memval(*s, i)) : f.add(memval(*e, i), memval(*s, i)));
            R().obs(mul ? "hadamard" : "adds");
            return;
        }
        case 9:
        case 10:
        case 11: { // shifted additions
            Ent *e = pick(MEM), *s = pick(MEM);
            if (!e || !s || overlap(*e, *s))
                return;
            unsigned k = r.below(4);
            if (k == 0) {
                if (s->n > e->n)
                    return;
                int off = r.below(e->n - s->n + 1);
                say(fmt("%s.add(%s,%d)", id(e).c_str(), id(s).c_str(), off));
                e->v->add(s->v.get(), off);
                for (int i = 0; i < s->n; i++)
                    memput(*e, off + i, f.add(memval(*e, off + i), memval(*s, i)));
            } else if (k == 1) {
                if (s->n > e->n)
                    return;
                say(fmt("%s.add_mutual(%s)", id(e).c_str(), id(s).c_str()));
                e->v->add_mutual(s->v.get());
                for (int i = 0; i < s->n; i++)
                    memput(*e, i, f.add(memval(*e, i), memval(*s, i)));
            } else if (k == 2) {
                if (s->n > e->n)
                    return;
                int off = r.below(e->n - s->n + 1);
                say(fmt("%s.add_mutual(%s,%d)", id(e).c_str(), id(s).c_str(), off));
                e->v->add_mutual(s->v.get(), off);
                for (int i = 0; i < s->n; i++)
                    memput(*e, off + i, f.add(memval(*e, off + i), memval(*s, i)));
            } else {
                int len = r.below(std::min(e->n, s->n) + 1);
                int off = r.below(e->n - len + 1);
                say(fmt("%s.add_mutual(%s,%d,%d)", id(e).c_str(), id(s).c_str(), off, len));
                e->v->add_mutual(s->v.get(), off, len);
                for (int i = 0; i < len; i++)
                    memput(*e, off + i, f.add(memval(*e, off + i), memval(*s, i)));
            }
            R().obs("shifted_adds");
            return;
        }
        case 12:
        case 13:
        case 14:
        case 15: { // copies
            Ent *e = pick(MEM), *s = pick(MEM | 1 << ZEXT);
            if (!e || !s || overlap(*e, *s))
                return;
            unsigned k = r.below(4);
            auto src = [&](int i) -> u128 { return i < s->mem_len ? memval(*s, i) : 0; };
            if (k == 0) {
                if (s->mem_len > e->mem_len)
                    return;
                say(fmt("%s.copy(%s)", id(e).c_str(), id(s).c_str()));
                e->v->copy(s->v.get());
                for (int i = 0; i < s->mem_len; i++)
                    memput(*e, i, src(i));
            } else if (k == 1) {
                int n = r.below(e->mem_len + 1);
                say(fmt("%s.copy(%s,%d)", id(e).c_str(), id(s).c_str(), n));
                e->v->copy(s->v.get(), n);
                for (int i = 0; i < n; i++)
                    memput(*e, i, src(i));
            } else if (k == 2) {
                int n = r.below(e->mem_len + 1), off = r.below(e->mem_len - n + 1);
                say(fmt("%s.copy(%s,%d,%d)", id(e).c_str(), id(s).c_str(), n, off));
                e->v->copy(s->v.get(), n, off);
                for (int i = 0; i < n; i++)
                    memput(*e, off + i, src(i));
            } else {
                int n = r.below(e->mem_len + 1), off = r.below(e->mem_len - n + 1), so = r.below(s->mem_len + 1);
                say(fmt("%s.copy(%s,%d,%d,%d)", id(e).c_str(), id(s).c_str(), n, off, so));
                e->v->copy(s->v.get(), n, off, so);
                for (int i = 0; i < n; i++)
                    memput(*e, off + i, src(so + i));
            }
            R().obs("copies");
            return;
        }
        case 16: {
            Ent* e = pick(MEM);
            if (!e)
                return;
            say(id(e) + ".neg()");
            e->v->neg();
            for (int i = 0; i < e->n; i++)
                memput(*e, i, f.neg(memval(*e, i)));
            return;
        }
        case 17: {
            Ent* e = pick(MEM);
            if (!e)
                return;
            say(id(e) + ".sort()");
            e->v->sort();
            auto it = bases[e->base].begin() + e->off;
            std::sort(it, it + e->n);
            return;
        }
        case 18: {
            Ent* e = pick(MEM);
            if (!e || e->n == 0)
                return;
            int i = r.below(e->n), j = r.below(e->n);
            say(fmt("%s.swap(%d,%d)", id(e).c_str(), i, j));
            e->v->swap(i, j);
            std::swap(bases[e->base][e->off + i], bases[e->base][e->off + j]);
            return;
        }
        case 19: { // random content: inside the field, nothing else touched
            Ent* e = pick(MEM | 1 << VIEW);
            if (!e)
                return;
            say(id(e) + ".rand()");
            e->v->rand();
            for (int i = 0; i < e->n; i++) {
                u128 v = e->v->get(i);
                if (!f.inside(v))
                    bad("rand", "a random element is outside the field");
                put(*e, i, v);
            }
            return;
        }
        case 20: { // equality
            Ent *a = pick(ALL), *b = pick(ALL);
            if (!a || !b)
                return;
            say(id(a) + "==" + id(b));
            bool want = a->n == b->n;
            for (int i = 0; want && i < a->n; i++)
                want = val(*a, i) == val(*b, i);
            // the length of a zero-extended vector shadows that of its base class
            if ((*a->v == *b->v) != want)
                bad("equality", fmt("%s == %s is %d after %s", id(a).c_str(), id(b).c_str(), !want, hist.c_str()));
            R().obs(want ? "equal_pairs" : "different_pairs");
            return;
        }
        case 21: { // copy construction: deep for owners, shared for the others
            Ent* s = pick(MEM);
            if (!s || es.size() > 14)
                return;
            auto e = std::make_unique<Ent>();
            say(fmt("vector%zu=copy of %s", es.size(), id(s).c_str()));
            e->v = std::make_unique<vec::Vector<T>>(*s->v);
            e->n = s->n;
            e->mem_len = s->mem_len;
            if (s->kind == OWN) {
                e->kind = OWN;
                e->base = bases.size();
                std::vector<u128> b = bases[s->base];
                bases.push_back(b);
            } else {
                e->kind = WRAP;
                e->base = s->base;
                e->off = s->off;
                e->parent = s;
                s->kids++;
            }
            R().obs("copy_constructed");
            add(std::move(e));
            return;
        }
        case 22: { // move construction
            Ent* s = pick(1 << OWN);
            if (!s || s->kids)
                return;
            say("move " + id(s));
            auto v = std::make_unique<vec::Vector<T>>(std::move(*s->v));
            s->v = std::move(v); // the moved-from object is destroyed here
            R().obs("move_constructed");
            return;
        }
        case 23: { // exchange of two vectors
            Ent *a = pick(1 << OWN), *b = pick(1 << OWN);
            if (!a || !b || a == b || a->kids || b->kids)
                return;
            say("swap " + id(a) + "," + id(b));
            swap(*a->v, *b->v);
            std::swap(a->base, b->base);
            std::swap(a->n, b->n);
            std::swap(a->mem_len, b->mem_len);
            R().obs("exchanges");
            return;
        }
        case 24: { // move a slice along its parent
            Ent* e = pick(1 << SLICE);
            if (!e || e->kids)
                return;
            int off = r.below(e->N);
            say(fmt("%s.set_map(%d)", id(e).c_str(), off));
            ((vec::Slice<T>*)e->v.get())->set_map(off);
            e->off += off - e->voff;
            e->voff = off;
            e->n = e->mem_len = std::min(e->n, e->N - off);
            if (((vec::Slice<T>*)e->v.get())->get_offset() != off)
                bad("slice-offset", "wrong offset");
            R().obs("slices_moved");
            return;
        }
        case 25: { // assignment: as copy construction
            Ent *e = pick(1 << OWN | 1 << WRAP), *s = pick(MEM);
            if (!e || !s || e->kids)
                return;
            say(fmt("%s=%s", id(e).c_str(), id(s).c_str()));
            *e->v = *s->v;
            R().obs("copy_assigned");
            if (e == s)
                return;
            if (e->parent)
                e->parent->kids--;
            e->parent = nullptr;
            e->n = s->n;
            e->mem_len = s->mem_len;
            if (s->kind == OWN) {
                e->kind = OWN;
                e->base = bases.size();
                e->off = 0;
                std::vector<u128> b = bases[s->base];
                bases.push_back(b);
            } else {
                e->kind = WRAP;
                e->base = s->base;
                e->off = s->off;
                e->parent = s;
                s->kids++;
            }
            return;
        }
        case 26: { // move assignment
            Ent *e = pick(1 << OWN | 1 << WRAP), *s = pick(1 << OWN);
            if (!e || !s || e == s || e->kids || s->kids)
                return;
            say(fmt("%s=move %s", id(e).c_str(), id(s).c_str()));
            *e->v = std::move(*s->v);
            if (e->parent)
                e->parent->kids--;
            e->parent = nullptr;
            e->kind = OWN;
            e->base = s->base;
            e->off = 0;
            e->n = s->n;
            e->mem_len = s->mem_len;
            for (size_t i = 0; i < es.size(); i++)
                if (es[i].get() == s) { // the moved-from object is destroyed here
                    es.erase(es.begin() + i);
                    break;
                }
            R().obs("move_assigned");
            return;
        }
        default: { // change a view
            Ent* e = pick(1 << VIEW);
            if (!e)
                return;
            auto* w = (vec::View<T>*)e->v.get();
            unsigned k = r.below(3);
            if (k == 0) {
                e->voff = r.below(2 * e->N);
                e->step = 1 + r.below(e->N);
                say(fmt("%s.set_map(%d,%d)", id(e).c_str(), e->voff, e->step));
                w->set_map(e->voff, e->step);
            } else if (k == 1) {
                e->n = r.below(e->N + 1);
                say(fmt("%s.set_len(%d)", id(e).c_str(), e->n));
                w->set_len(e->n);
            } else {
                Ent* p = pick(MEM);
                if (!p || p->n < e->n || p->n == 0)
                    return;
                say(fmt("%s.set_vec(%s)", id(e).c_str(), id(p).c_str()));
                w->set_vec(p->v.get());
                e->parent->kids--;
                e->parent = p;
                p->kids++;
                e->N = p->n;
            }
            R().obs("views_changed");
            return;
        }
        }
    }
};

template <typename T> static size_t some_field(Rng& r)
{
    auto& s = field_specs<T>();
    for (;;) {
        size_t i = r.below(s.size());
        if (s[i].kind == BINEXT && s[i].n > 64)
            continue;
        return i;
    }
}
template <typename T> void vec_history(Rng& r)
{
    const Fld<T>& f = field<T>(some_field<T>(r));
    World<T> w(f, r);
    int steps = R().a.thorough() ? 120 : 60;
    for (int i = 0; i < steps; i++) {
        if (w.es.size() < 3 || (w.es.size() < 12 && r.chance(18)))
            w.create();
        else if (w.es.size() > 4 && r.chance(6))
            w.drop();
        else
            w.op();
        if (!w.verify())
            return;
        R().seen("histories", fnvs(w.hist, fnvs(f.name)));
    }
    R().obs("histories");
}
HX_SPLIT(vec_history, (Rng&))
#ifndef HX_HI
static void vectors(long i, Rng& r)
{
    switch (i % 4) {
    case 0: vec_history<uint16_t>(r); break;
    case 1: vec_history<uint32_t>(r); break;
    case 2: vec_history<uint64_t>(r); break;
    default: vec_history<u128>(r); break;
    }
}

static Mode m_vector("vector", vectors);
#endif
#endif

// ------------------------------------------------------------------ buffers
#ifdef HX_M_buffers
template <typename T> struct BWorld {
    Rng& r;
    size_t size;
    std::string hist;
    typedef std::vector<T> Row;
    std::vector<Row> rows;        // model rows
    struct Ent {
        std::unique_ptr<vec::Buffers<T>> b;
        std::vector<int> idx; // rows of the model
        std::vector<bool> zero;
        bool full = false;
        std::vector<Ent*> deps;
        int kids = 0;
        const char* how = "";
    };
    std::vector<std::unique_ptr<Ent>> es;
    std::vector<std::pair<std::vector<T>, int>> ext;
    simd::AlignedAllocator<T> alloc;
    static constexpr int GUARD = 8;

    BWorld(Rng& r_, size_t s) : r(r_), size(s) { ext.reserve(256); }
    ~BWorld()
    {
        while (!es.empty())
            for (size_t i = es.size(); i-- > 0;)
                if (es[i]->kids == 0) {
                    kill(i);
                    break;
                }
    }
    void kill(size_t i)
    {
        for (auto* d : es[i]->deps)
            d->kids--;
        es.erase(es.begin() + i);
    }
    void say(const std::string& s)
    {
        hist += s + "; ";
        if (hist.size() > 2500)
            hist = "..." + hist.substr(hist.size() - 2300);
        R().set_case(fmt("buffers:%s", tname<T>()), fmt("%s size=%zu ", tname<T>(), size) + hist);
        R().obs("operations");
    }
    void bad(const std::string& k, const std::string& d) { R().viol(k + ":" + tname<T>(), d + " after " + hist); }
    T word() { return r.chance(20) ? (T)(r.below(3) - 1) : (T)r.next128(); }
    Row rnd()
    {
        Row x(size);
        for (auto& e : x)
            e = word();
        return x;
    }
    int newrow(const Row& x)
    {
        rows.push_back(x);
        return rows.size() - 1;
    }
    bool verify()
    {
        for (size_t k = 0; k < es.size(); k++) {
            Ent& e = *es[k];
            const vec::Buffers<T>& b = *e.b;
            if (b.get_n() != (int)e.idx.size() || b.get_size() != size || b.get_mem().size() != e.idx.size()) {
                bad("buffers-shape", fmt("b%zu (%s) has %d rows of %zu, expected %zu of %zu", k, e.how, b.get_n(), b.get_size(), e.idx.size(), size));
                return false;
            }
            if (e.b->get_mem_len() != (int)(e.idx.size() * size)) {
                bad("buffers-mem-len", fmt("b%zu (%s) memory length %d", k, e.how, e.b->get_mem_len()));
                return false;
            }
            for (size_t i = 0; i < e.idx.size(); i++) {
                const T* p = b.get(i);
                if (p != b.get_mem()[i] || p != e.b->get(i)) {
                    bad("buffers-pointer", fmt("b%zu row %zu", k, i));
                    return false;
                }
                const Row& w = rows[e.idx[i]];
                for (size_t j = 0; j < size; j++)
                    if (p[j] != w[j]) {
                        bad(std::string("buffers-content:") + e.how, fmt("b%zu (%s) row %zu column %zu is %s, expected %s", k, e.how, i, j, S(p[j]), S(w[j])));
                        return false;
                    }
                if (e.full && !simd::addr_is_aligned(p)) {
                    bad("buffers-alignment", fmt("b%zu row %zu", k, i));
                    return false;
                }
            }
            R().obs("elements_compared", e.idx.size() * size);
        }
        for (auto& x : ext)
            for (int g = 0; g < GUARD; g++)
                if (x.first[g] != (T)0x5a5a5a5a || x.first[x.first.size() - 1 - g] != (T)0x5a5a5a5a) {
                    bad("buffers-guard", "caller memory around a row was written");
                    return false;
                }
        return true;
    }
    Ent* pick() { return es.empty() ? nullptr : es[r.below(es.size())].get(); }
    int no(Ent* e)
    {
        for (size_t i = 0; i < es.size(); i++)
            if (es[i].get() == e)
                return i;
        return -1;
    }
    void dep(Ent& e, Ent* on)
    {
        e.deps.push_back(on);
        on->kids++;
    }
    Ent* add(std::unique_ptr<Ent> e)
    {
        R().obs(std::string("made_") + e->how);
        e->zero.resize(e->idx.size(), false);
        es.push_back(std::move(e));
        return es.back().get();
    }
    void create()
    {
        auto e = std::make_unique<Ent>();
        unsigned k = es.empty() ? r.below(2) : r.below(8);
        if (k == 0 || k == 7) {
            int n = 1 + r.below(9);
            e->how = "full";
            e->full = true;
            say(fmt("b%zu=full(%d)", es.size(), n));
            e->b = std::make_unique<vec::Buffers<T>>(n, size);
            for (int i = 0; i < n; i++) {
                Row x = rnd();
                std::copy(x.begin(), x.end(), e->b->get(i));
                e->idx.push_back(newrow(x));
            }
        } else if (k == 1) {
            int n = 1 + r.below(9);
            if (ext.size() + n > 250)
                return;
            e->how = "wrapper";
            say(fmt("b%zu=wrapper(%d)", es.size(), n));
            std::vector<T*> p;
            for (int i = 0; i < n; i++) {
                Row x = rnd();
                std::vector<T> m(size + 2 * GUARD, (T)0x5a5a5a5a);
                std::copy(x.begin(), x.end(), m.begin() + GUARD);
                int id = newrow(x);
                ext.emplace_back(std::move(m), id);
                p.push_back(ext.back().first.data() + GUARD);
                e->idx.push_back(id);
            }
            e->b = std::make_unique<vec::Buffers<T>>(n, size, p);
        } else if (k == 2) {
            Ent* s = pick();
            int n = r.below(12);
            e->how = "copy";
            e->full = true;
            say(fmt("b%zu=copy(b%d,%d)", es.size(), no(s), n));
            if (n == 0 && r.chance(50))
                e->b = std::make_unique<vec::Buffers<T>>(*s->b);
            else
                e->b = std::make_unique<vec::Buffers<T>>(*s->b, n);
            int m = n ? n : s->idx.size();
            for (int i = 0; i < m; i++)
                e->idx.push_back(newrow(i < (int)s->idx.size() ? rows[s->idx[i]] : Row(size, 0)));
        } else if (k == 3 || k == 4) {
            Ent* s = pick();
            int sn = s->idx.size();
            int begin = r.below(sn + (r.chance(20) ? 1 : 0)), end = begin + 1 + r.below(sn - begin + 5);
            e->how = end <= sn ? "slice" : "zero-extended";
            say(fmt("b%zu=%s(b%d,%d,%d)", es.size(), e->how, no(s), begin, end));
            e->b = std::make_unique<vec::Buffers<T>>(*s->b, begin, end);
            int z = end > sn ? newrow(Row(size, 0)) : -1;
            for (int i = begin; i < end; i++) {
                e->idx.push_back(i < sn ? s->idx[i] : z);
                e->zero.push_back(i >= sn || s->zero[i]);
            }
            dep(*e, s);
        } else if (k == 5) {
            Ent *s = pick(), *t = pick();
            e->how = "combined";
            say(fmt("b%zu=combined(b%d,b%d)", es.size(), no(s), no(t)));
            e->b = std::make_unique<vec::Buffers<T>>(*s->b, *t->b);
            e->idx = s->idx;
            e->idx.insert(e->idx.end(), t->idx.begin(), t->idx.end());
            e->zero = s->zero;
            e->zero.insert(e->zero.end(), t->zero.begin(), t->zero.end());
            dep(*e, s);
            dep(*e, t);
        } else {
            Ent* s = pick();
            int sn = s->idx.size(), m = 1 + r.below(sn), n = r.chance(40) ? m : m + r.below(6);
            std::vector<int> to(n);
            for (int i = 0; i < n; i++)
                to[i] = i;
            r.shuffle(to);
            e->how = n == m ? "shuffled" : "shuffled-extended";
            std::string ms;
            auto& f = field<uint32_t>(1);
            (void)f;
            const Fld<T>& ft = field<T>(0);
            vec::Vector<T> map(*ft.gf, m);
            for (int i = 0; i < m; i++) {
                map.set(i, (T)to[i]);
                ms += fmt("%d ", to[i]);
            }
            say(fmt("b%zu=shuffled(b%d,[%s],%d)", es.size(), no(s), ms.c_str(), n));
            e->b = std::make_unique<vec::Buffers<T>>(*s->b, map, n);
            int z = n > m ? newrow(Row(size, 0)) : -1;
            e->idx.assign(n, z);
            e->zero.assign(n, true);
            for (int i = 0; i < m; i++) {
                e->idx[to[i]] = s->idx[i];
                e->zero[to[i]] = s->zero[i];
            }
            dep(*e, s);
        }
        add(std::move(e));
    }
    void op()
    {
        Ent* e = pick();
        int n = e->idx.size(), k = no(e);
        switch (r.below(10)) {
        case 0:
        case 1: { // write through get
            int i = r.below(n);
            if (e->zero[i] || !size)
                return;
            size_t j = r.below(size);
            T v = word();
            say(fmt("b%d[%d][%zu]=", k, i, j));
            e->b->get(i)[j] = v;
            rows[e->idx[i]][j] = v;
            return;
        }
        case 2: {
            int i = r.below(n);
            if (e->zero[i])
                return;
            T v = word();
            say(fmt("b%d.fill(%d)", k, i));
            e->b->fill(i, v);
            rows[e->idx[i]].assign(size, v);
            return;
        }
        case 3: {
            say(fmt("b%d.zero_fill()", k));
            e->b->zero_fill();
            for (int i : e->idx)
                rows[i].assign(size, 0);
            return;
        }
        case 4: { // row copy
            int i = r.below(n);
            if (e->zero[i])
                return;
            Row x = rnd();
            say(fmt("b%d.copy(%d,row)", k, i));
            e->b->copy(i, x.data());
            rows[e->idx[i]] = x;
            return;
        }
        case 5: { // whole copy between unrelated objects
            Ent* s = pick();
            if (s->idx.size() != e->idx.size())
                return;
            std::set<int> a(e->idx.begin(), e->idx.end());
            if ((int)a.size() != n)
                return;
            for (int i = 0; i < n; i++)
                if (e->zero[i] || a.count(s->idx[i]))
                    return;
            say(fmt("b%d.copy(b%d)", k, no(s)));
            e->b->copy(*s->b);
            for (int i = 0; i < n; i++)
                rows[e->idx[i]] = rows[s->idx[i]];
            R().obs("buffer_copies");
            return;
        }
        case 6: {
            if (n < 2)
                return;
            if (e->kids && e->full)
                ; // slices keep their own pointers
            int i = r.below(n), j = r.below(n);
            say(fmt("b%d.swap(%d,%d)", k, i, j));
            e->b->swap(i, j);
            std::swap(e->idx[i], e->idx[j]);
            std::vector<bool>::swap(e->zero[i], e->zero[j]);
            return;
        }
        case 7: { // separation
            if (n % 2 || n < 2)
                return;
            std::vector<int> ev, od;
            std::vector<bool> ez, oz;
            for (int i = 0; i < n; i++) {
                (i % 2 ? od : ev).push_back(e->idx[i]);
                (i % 2 ? oz : ez).push_back(e->zero[i]);
            }
            if (r.chance(50)) {
                say(fmt("b%d.separate_even_odd()", k));
                e->b->separate_even_odd();
                ev.insert(ev.end(), od.begin(), od.end());
                ez.insert(ez.end(), oz.begin(), oz.end());
                e->idx = ev;
                e->zero = ez;
            } else {
                say(fmt("b%d.separate_even_odd(b%zu,b%zu)", k, es.size(), es.size() + 1));
                std::vector<T*> nul(n / 2, nullptr);
                auto x = std::make_unique<Ent>(), y = std::make_unique<Ent>();
                x->how = y->how = "separated";
                x->b = std::make_unique<vec::Buffers<T>>(n / 2, size, nul);
                y->b = std::make_unique<vec::Buffers<T>>(n / 2, size, nul);
                e->b->separate_even_odd(*x->b, *y->b);
                x->idx = ev;
                y->idx = od;
                x->zero = ez;
                y->zero = oz;
                dep(*x, e);
                dep(*y, e);
                add(std::move(x));
                add(std::move(y));
            }
            R().obs("separations");
            return;
        }
        case 8: { // replace a row
            int i = r.below(n);
            Row x = rnd();
            if (e->full) {
                if (e->kids)
                    return; // the slices would keep a pointer to a freed row
                T* p = alloc.allocate(size);
                std::copy(x.begin(), x.end(), p);
                say(fmt("b%d.set(%d,owned)", k, i));
                e->b->set(i, p);
            } else {
                if (ext.size() > 250)
                    return;
                std::vector<T> m(size + 2 * GUARD, (T)0x5a5a5a5a);
                std::copy(x.begin(), x.end(), m.begin() + GUARD);
                ext.emplace_back(std::move(m), 0);
                say(fmt("b%d.set(%d,caller)", k, i));
                e->b->set(i, ext.back().first.data() + GUARD);
            }
            e->idx[i] = newrow(x);
            e->zero[i] = false;
            R().obs("rows_replaced");
            return;
        }
        default: {
            Ent* s = pick();
            bool want = s->idx.size() == e->idx.size();
            for (size_t i = 0; want && i < s->idx.size(); i++)
                want = rows[s->idx[i]] == rows[e->idx[i]];
            say(fmt("b%d==b%d", k, no(s)));
            if ((*e->b == *s->b) != want)
                bad("buffers-equality", fmt("b%d == b%d is %d", k, no(s), !want));
            R().obs(want ? "equal_pairs" : "different_pairs");
            return;
        }
        }
    }
};
template <typename T> void buf_history(Rng& r)
{
    size_t size = r.chance(5) ? 0 : 1 + r.below(r.chance(50) ? 8 : 70);
    if (size == 0)
        size = 1;
    BWorld<T> w(r, size);
    int steps = R().a.thorough() ? 100 : 50;
    for (int i = 0; i < steps; i++) {
        if (w.es.size() < 2 || (w.es.size() < 9 && r.chance(20)))
            w.create();
        else if (w.es.size() > 3 && r.chance(8)) {
            std::vector<size_t> o;
            for (size_t k = 0; k < w.es.size(); k++)
                if (w.es[k]->kids == 0)
                    o.push_back(k);
            if (!o.empty()) {
                size_t k = o[r.below(o.size())];
                w.say(fmt("drop b%zu", k));
                w.kill(k);
            }
        } else
            w.op();
        if (!w.verify())
            return;
        R().seen("histories", fnvs(w.hist, size));
    }
    R().obs("histories");
}
HX_SPLIT(buf_history, (Rng&))
#ifndef HX_HI
static void buffers(long i, Rng& r)
{
    switch (i % 4) {
    case 0: buf_history<uint16_t>(r); break;
    case 1: buf_history<uint32_t>(r); break;
    case 2: buf_history<uint64_t>(r); break;
    default: buf_history<u128>(r); break;
    }
}

static Mode m_buffers("buffers", buffers);
#endif
#endif

// ------------------------------------------------------------------ packing and allocation
#ifdef HX_M_cast
template <typename Td> static void pack_case(Rng& r)
{
    std::vector<size_t> ws;
    for (size_t w = 1; w <= sizeof(Td); w *= 2)
        ws.push_back(w);
    size_t w = ws[r.below(ws.size())];
    int n = 1 + r.below(6);
    size_t size = r.chance(5) ? 0 : 1 + r.below(70);
    R().set_case(fmt("pack:%s", tname<Td>()), fmt("%s word=%zu n=%d size=%zu", tname<Td>(), w, n, size));
    simd::AlignedAllocator<uint8_t> al;
    const size_t G = 32;
    std::vector<uint8_t*> src(n), back(n);
    std::vector<Td*> dst(n);
    std::vector<std::vector<Td>> dm(n);
    std::vector<std::vector<uint8_t>> orig(n);
    for (int i = 0; i < n; i++) {
        src[i] = al.allocate(size * w + G);
        back[i] = al.allocate(size * w + G);
        orig[i].resize(size * w);
        orig[i].reserve(size * w + 1);
        for (size_t k = 0; k < size * w; k++)
            orig[i][k] = src[i][k] = r.chance(30) ? 0xff : r.next();
        memset(src[i] + size * w, 0xa5, G);
        memset(back[i], 0xa5, size * w + G);
        dm[i].assign(size + 16, (Td)0x5a5a5a5a);
        dst[i] = dm[i].data() + 8;
    }
    vec::pack<uint8_t, Td>(src, dst, n, size, w);
    for (int i = 0; i < n; i++) {
        for (size_t k = 0; k < size; k++) {
            u128 want = 0;
            for (size_t b = w; b-- > 0;)
                want = (want << 8) | orig[i][k * w + b];
            if ((u128)dst[i][k] != want)
                R().viol(fmt("pack:%s:%zu", tname<Td>(), w), fmt("row %d word %zu is %s, expected %s", i, k, S(dst[i][k]), S(want)));
        }
        for (int k = 0; k < 8; k++)
            if (dm[i][k] != (Td)0x5a5a5a5a || dm[i][8 + size + k] != (Td)0x5a5a5a5a)
                R().viol(fmt("pack-guard:%s:%zu", tname<Td>(), w), "wrote outside the destination");
    }
    // what a codec may leave above the word is dropped
    bool high = w < sizeof(Td) && r.chance(50);
    if (high)
        for (int i = 0; i < n; i++)
            for (size_t k = 0; k < size; k++)
                dst[i][k] = (Td)(dst[i][k] | ((Td)1 << (8 * w)));
    vec::unpack<Td, uint8_t>(dst, back, n, size, w);
    for (int i = 0; i < n; i++) {
        if (memcmp(back[i], orig[i].data(), size * w))
            R().viol(fmt("unpack:%s:%zu", tname<Td>(), w), fmt("row %d differs", i));
        for (size_t k = 0; k < G; k++)
            if (back[i][size * w + k] != 0xa5)
                R().viol(fmt("unpack-guard:%s:%zu", tname<Td>(), w), "wrote outside the destination");
        if (memcmp(src[i], orig[i].data(), size * w))
            R().viol(fmt("pack-source:%s:%zu", tname<Td>(), w), "source changed");
    }
    vec::Buffers<Td> bd(n, size ? size : 1, dst);
    std::unique_ptr<std::vector<uint8_t*>> cm(vec::cast_mem_of_vecp<Td, uint8_t>(&bd));
    for (int i = 0; i < n; i++)
        if ((int)cm->size() != n || (void*)cm->at(i) != (void*)dst[i])
            R().viol(fmt("cast:%s", tname<Td>()), "wrong pointer");
    for (int i = 0; i < n; i++) {
        al.deallocate(src[i], size * w + G);
        al.deallocate(back[i], size * w + G);
    }
    R().obs("packings");
    R().obs("elements_compared", 2 * n * size);
    R().seen("histories", fnvs(fmt("pack %s %zu %d %zu", tname<Td>(), w, n, size)));
}
template <typename T> static void alloc_case(Rng& r)
{
    simd::AlignedAllocator<T> a;
    R().set_case(fmt("allocator:%s", tname<T>()), fmt("allocator %s", tname<T>()));
    struct B {
        T* p;
        size_t n;
        T v;
    };
    std::vector<B> live;
    for (int i = 0; i < 60; i++) {
        if (live.size() < 3 || r.chance(60)) {
            size_t n = r.below(r.chance(70) ? 50 : 3000);
            T* p = a.allocate(n);
            // ALIGNMENT is what SIMD registers need; without SIMD only the type's own alignment
            if ((uintptr_t)p % alignof(T) || !simd::addr_is_aligned(p)
                || (simd::INSTRUCTION_SET != simd::InstructionSet::NONE && (uintptr_t)p % simd::ALIGNMENT))
                R().viol(fmt("allocator-alignment:%s", tname<T>()), fmt("%p for %zu", (void*)p, n));
            T v = (T)r.next();
            std::fill_n(p, n, v);
            live.push_back({p, n, v});
        } else {
            size_t k = r.below(live.size());
            for (size_t j = 0; j < live[k].n; j++)
                if (live[k].p[j] != live[k].v) {
                    R().viol(fmt("allocator-overlap:%s", tname<T>()), "content of a live block changed");
                    break;
                }
            a.deallocate(live[k].p, live[k].n);
            live.erase(live.begin() + k);
        }
        R().obs("allocations");
    }
    for (auto& b : live) {
        for (size_t j = 0; j < b.n; j++)
            if (b.p[j] != b.v) {
                R().viol(fmt("allocator-overlap:%s", tname<T>()), "content of a live block changed");
                break;
            }
        a.deallocate(b.p, b.n);
    }
    a.deallocate(nullptr, 0);
    // sizes that overflow are refused
    bool threw = false;
    size_t lim = a.max_size(), top = std::numeric_limits<size_t>::max();
    size_t huge = lim + 1 + (r.chance(50) ? r.below(std::min<size_t>(200, top - lim)) : r.below(top - lim));
    try {
        T* volatile p = a.allocate(huge);
        a.deallocate(p, huge);
    } catch (const std::bad_alloc&) {
        threw = true;
    }
    if (!threw)
        R().viol(fmt("allocator-overflow:%s", tname<T>()), fmt("%zu elements allocated", huge));
    simd::AlignedAllocator<uint8_t> o;
    if (!(a == o) || a != o)
        R().viol("allocator-equality", "stateless allocators differ");
    R().seen("histories", fnvs(fmt("alloc %s %zu", tname<T>(), huge)));
}
static void casts(long i, Rng& r)
{
    switch (i % 5) {
    case 0: pack_case<uint16_t>(r); break;
    case 1: pack_case<uint32_t>(r); break;
    case 2: pack_case<uint64_t>(r); break;
    case 3: pack_case<u128>(r); break;
    default:
        alloc_case<uint8_t>(r);
        alloc_case<uint16_t>(r);
        alloc_case<uint32_t>(r);
        alloc_case<uint64_t>(r);
        alloc_case<u128>(r);
    }
}
static Mode m_cast("cast", casts);
#endif
