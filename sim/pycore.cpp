// The simulated interpreter: objects, reference counts, collection, the lock. Not instrumented.
#include "py/pyobj.h"
#include <algorithm>
#include <cstdio>
#include <mutex>

namespace simpy {
    static const unsigned ALIVE = 0x50790b9e, DEAD = 0xdead0b9e;
    static std::mutex gil;
    static int gil_owner = -1;
    static bool started;
    static long live;
    static long seq;
    static Obj *the_none;
    static uint64_t gcs = 1;
    static int gc_one_in;
    static bool collecting;

    struct Store { // never destroyed, on the simulator's own heap
        std::map<std::pair<const void *, const Class *>, Obj *> instances;
        std::vector<Class *> classes;
        std::vector<Obj *> garbage;
        std::map<long, Obj *> all;
    };

    static Store &st() {
        static Store *s;
        if (!s) {
            InMode q(rt::HARNESS);
            s = new Store();
        }
        return *s;
    }

    static const char *type_name(int t) {
        static const char *n[] = {"None", "bool", "int", "float", "str", "list", "tuple", "array", "function", "instance", "capsule"};
        return t >= 0 && t <= CAPSULE ? n[t] : "?";
    }

    static std::string name_of(const Obj *o) { return o->type == INSTANCE && o->cls ? o->cls->name : type_name(o->type); }

    static void need_gil(const char *what) {
        if (started && !gil_held()) rt::violation("gil", "%s without holding the interpreter lock in step %d", what, rt::current_step());
    }

    void check(const Obj *o) {
        if (o->magic != ALIVE) rt::violation("memory", "use of a Python object that was destroyed (%p) in step %d", (const void *) o, rt::current_step());
    }

    Obj *alloc(Type t) {
        need_gil("object created");
        maybe_collect();
        InMode q(rt::BOX);
        Obj *o = new Obj();
        o->magic = ALIVE;
        o->type = t;
        o->refs = 1;
        o->seq = ++seq;
        ++live;
        rt::set_mode(rt::HARNESS);
        st().all[o->seq] = o;
        return o;
    }

    static void dealloc(Obj *o) {
        // o stays readable until everything it holds is gone, like the head of a CPython object
        if (o->type == INSTANCE && o->value) {
            auto i = st().instances.find({o->value, o->cls});
            if (i != st().instances.end() && i->second == o) st().instances.erase(i);
            if (o->owned) o->cls->destroy(o);
        }
        if (o->finalize) o->finalize();
        o->fn = nullptr;
        std::vector<Obj *> drop;
        drop.swap(o->items);
        for (Obj *x: drop) if (x) decref(x);
        drop.clear();
        drop.swap(o->patients);
        for (Obj *x: drop) if (x) decref(x);
        if (o->base) decref(o->base);
        st().all.erase(o->seq);
        --live;
        o->magic = DEAD;
        delete o;
    }

    void incref(Obj *o) {
        need_gil("reference taken");
        check(o);
        ++o->refs;
    }

    void decref(Obj *o) {
        need_gil("reference dropped");
        check(o);
        if (o->refs <= 0) rt::violation("memory", "Python object %s has no reference left to drop in step %d", name_of(o).c_str(), rt::current_step());
        if (--o->refs == 0) {
            InMode q(rt::HARNESS);
            dealloc(o);
        }
    }

    Obj *none() {
        if (!the_none) the_none = alloc(NONE);
        incref(the_none);
        return the_none;
    }

    Obj *mk_bool(bool b) {
        Obj *o = alloc(BOOL);
        o->i = b;
        return o;
    }

    Obj *mk_int(long i) {
        Obj *o = alloc(INT);
        o->i = i;
        return o;
    }

    Obj *mk_float(double f) {
        Obj *o = alloc(FLOAT);
        o->f = f;
        return o;
    }

    Obj *mk_str(const std::string &s) {
        Obj *o = alloc(STR);
        InMode q(rt::BOX);
        o->s = s;
        return o;
    }

    Obj *mk_list(Type t, const std::vector<Obj *> &stolen) {
        Obj *o = alloc(t);
        InMode q(rt::BOX);
        o->items = stolen;
        return o;
    }

    Obj *mk_array(const double *d, long rows, long cols) {
        Obj *o = alloc(ARRAY);
        InMode q(rt::BOX);
        o->own.assign(d, d + rows * (cols < 0 ? 1 : cols));
        o->rows = rows;
        o->cols = cols;
        o->data = o->own.data();
        return o;
    }

    Obj *call(Obj *f, const std::vector<Obj *> &args) {
        need_gil("call");
        InMode q(rt::HARNESS);
        check(f);
        incref(f); // a running function is not destroyed
        Ref keep(f);
        if (f->type != FUNC) throw PyError{"TypeError", "object is not callable", nullptr};
        return f->fn(args);
    }

    void keep_alive(Obj *nurse, Obj *patient) {
        if (!nurse || !patient || patient->type == NONE || nurse->type == NONE) return;
        check(nurse);
        incref(patient);
        InMode q(rt::BOX);
        nurse->patients.push_back(patient);
    }

    void register_instance(Obj *o) {
        InMode q(rt::HARNESS);
        st().instances[{o->value, o->cls}] = o;
    }

    Obj *find_instance(const void *p, const Class *c) {
        auto i = st().instances.find({p, c});
        if (i == st().instances.end()) return nullptr;
        check(i->second);
        return i->second;
    }

    Class *class_of(const std::type_info &t) {
        for (Class *c: st().classes) if (c->type && *c->type == t) return c;
        return nullptr;
    }

    void add_class(Class *c) { st().classes.push_back(c); }

    void add_attr(Class *c, Function *f) {
        Function *&h = c->attrs[f->name];
        Function **p = &h;
        while (*p) p = &(*p)->next;
        *p = f;
    }

    Class *class_named(const std::string &n) {
        for (Class *c: st().classes) if (c->name == n) return c;
        if (n == "module") {
            Class *c = new Class();
            c->name = n;
            add_class(c);
            return c;
        }
        return nullptr;
    }

    Function *Class::find(const std::string &n) {
        for (Class *c = this; c; c = c->base) {
            auto i = c->attrs.find(n);
            if (i != c->attrs.end()) return i->second;
        }
        return nullptr;
    }

    Obj *invoke(Function *chain, Obj *self, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw) {
        InMode q(rt::HARNESS);
        need_gil("call");
        for (Function *f = chain; f; f = f->next) {
            size_t s = self ? 1 : 0;
            std::vector<Obj *> v;
            if (self) v.push_back(self);
            v.insert(v.end(), args.begin(), args.end());
            if (v.size() > f->nargs) continue;
            bool fits = true;
            size_t used = 0;
            for (size_t k = v.size(); k < f->nargs && fits; ++k) {
                if (k - s >= f->args.size()) {
                    fits = false;
                    break;
                }
                const Arg &a = f->args[k - s];
                auto i = kw.find(a.name);
                if (i != kw.end()) {
                    v.push_back(i->second);
                    ++used;
                } else if (a.def) {
                    v.push_back(a.def);
                } else {
                    fits = false;
                }
            }
            if (!fits || used != kw.size()) continue;
            // the caller's frame holds its arguments during the call
            for (Obj *x: v) incref(x);
            struct Hold {
                std::vector<Obj *> &v;

                ~Hold() { for (Obj *x: v) decref(x); }
            } hold{v};
            Obj *r;
            {
                InMode l(rt::LIB);
                r = f->call(v);
            }
            if (r) return r;
        }
        throw PyError{"TypeError", "incompatible function arguments", nullptr};
    }

    Obj *construct(Class *c, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw) {
        InMode q(rt::HARNESS);
        Ref self(alloc(INSTANCE));
        self.p->cls = c;
        Function *f = c->find("__init__");
        if (!f) throw PyError{"TypeError", c->name + ": No constructor defined!", nullptr};
        Ref r(invoke(f, self.p, args, kw));
        return self.release();
    }

    Obj *call_method(Obj *self, const std::string &n, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw) {
        InMode q(rt::HARNESS);
        check(self);
        Function *f = self->cls ? self->cls->find(n) : nullptr;
        if (!f || f->is_property) throw PyError{"AttributeError", n, nullptr};
        return invoke(f, self, args, kw);
    }

    Obj *get_attr(Obj *self, const std::string &n) {
        InMode q(rt::HARNESS);
        check(self);
        Function *f = self->cls ? self->cls->find(n) : nullptr;
        if (!f || !f->is_property) throw PyError{"AttributeError", n, nullptr};
        return invoke(f, self, {}, {});
    }

    bool gil_held() { return gil_owner == rt::self(); }

    void gil_acquire() {
        if (gil_held()) rt::violation("gil", "interpreter lock taken twice in step %d", rt::current_step());
        gil.lock();
        gil_owner = rt::self();
    }

    void gil_release() {
        need_gil("lock released");
        gil_owner = -1;
        gil.unlock();
    }

    static uint64_t rnd() {
        uint64_t z = gcs += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    void trash(Obj *o) {
        InMode q(rt::HARNESS);
        check(o);
        st().garbage.push_back(o);
    }

    void maybe_collect() {
        auto &g = st().garbage;
        if (collecting || !gc_one_in || g.empty() || rnd() % gc_one_in) return;
        InMode q(rt::HARNESS);
        collecting = true; // one generation: a seeded part of the garbage, in a seeded order
        size_t n = 1 + rnd() % g.size();
        while (n-- && !g.empty()) {
            size_t k = rnd() % g.size();
            Obj *o = g[k];
            g.erase(g.begin() + k);
            decref(o);
        }
        collecting = false;
    }

    void collect_all() {
        InMode q(rt::HARNESS);
        auto &g = st().garbage;
        while (!g.empty()) {
            size_t k = rnd() % g.size();
            Obj *o = g[k];
            g.erase(g.begin() + k);
            decref(o);
        }
    }

    void gc_seed(uint64_t s, int one_in) {
        gcs = s * 0x2545f4914f6cdd1dull + 1;
        gc_one_in = one_in;
    }

    long live_objects() { return live; }

    std::string describe_live() {
        std::map<std::string, int> n;
        for (auto &x: st().all) ++n[name_of(x.second)];
        std::string r;
        for (auto &x: n) r += " " + std::to_string(x.second) + "x" + x.first;
        return r;
    }

    void module_done() {
        none();
        live = 0;
        started = true;
        st().all.clear();
    }
}
