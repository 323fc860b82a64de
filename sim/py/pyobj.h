// The objects of the simulated interpreter. Reference counted like CPython; what is only held by garbage waits for
// a collection, which happens at seeded moments: when objects are created or Python code runs.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeindex>
#include <vector>
#include "../rt.h"

namespace simpy {
    struct Class;

    enum Type {
        NONE, BOOL, INT, FLOAT, STR, LIST, TUPLE, ARRAY, FUNC, INSTANCE, CAPSULE
    };

    struct Obj {
        unsigned magic;
        Type type;
        long refs;
        long i = 0;
        double f = 0;
        std::string s;
        std::vector<Obj *> items;          // list, tuple; strong
        long rows = 0, cols = 0;           // array; cols < 0: one-dimensional
        double *data = nullptr;            // array: its values, in items of its own or inside base
        std::vector<double> own;
        Obj *base = nullptr;               // array: what its data lives in; strong
        std::function<Obj *(const std::vector<Obj *> &)> fn; // callable: new reference; throws what the Python code raises
        std::function<void()> finalize;    // callable: when its closure dies
        Class *cls = nullptr;              // instance
        void *value = nullptr;
        bool owned = false, holder_made = false;
        std::shared_ptr<void> sp;          // instance: holder of kind shared_ptr
        std::vector<Obj *> patients;       // kept alive by this object; strong
        long seq = 0;
    };

    struct Class {
        std::string name;
        const std::type_info *type = nullptr;
        Class *base = nullptr;
        void *(*up)(void *) = nullptr;              // pointer to this class -> pointer to base
        void (*make_holder)(Obj *) = nullptr;       // the holder takes over value
        void (*destroy)(Obj *) = nullptr;           // holder or bare value
        bool shared = false;                        // holder is a shared_ptr
        struct Function *find(const std::string &);
        std::map<std::string, struct Function *> attrs;
    };

    struct Arg {
        std::string name;
        Obj *def = nullptr;
    };

    struct Function { // one overload
        std::string name;
        std::vector<Arg> args;           // named arguments, without self
        bool is_ctor = false, is_property = false;
        size_t nargs = 0;                // including self
        // new reference; nullptr: these arguments do not fit
        std::function<Obj *(const std::vector<Obj *> &)> call;
        Function *next = nullptr;
    };

    // what Python code sees when native code fails
    struct PyError {
        std::string type, message;
        std::exception_ptr original; // an exception raised by (simulated) Python code, on its way through native code
    };

    Obj *alloc(Type);                    // one reference
    void incref(Obj *);
    void decref(Obj *);
    Obj *none();
    Obj *mk_bool(bool);
    Obj *mk_int(long);
    Obj *mk_float(double);
    Obj *mk_str(const std::string &);
    Obj *mk_list(Type, const std::vector<Obj *> &stolen);
    Obj *mk_array(const double *colmajor, long rows, long cols);
    Obj *call(Obj *callable, const std::vector<Obj *> &args); // new reference

    void check(const Obj *);
    void keep_alive(Obj *nurse, Obj *patient);
    void register_instance(Obj *);
    Obj *find_instance(const void *, const Class *); // borrowed
    Class *class_of(const std::type_info &);
    void add_class(Class *);
    void add_attr(Class *, Function *);
    Class *class_named(const std::string &);
    Obj *invoke(Function *, Obj *self, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw); // new reference or throws PyError
    Obj *construct(Class *, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw);
    Obj *call_method(Obj *self, const std::string &name, const std::vector<Obj *> &args, const std::map<std::string, Obj *> &kw);
    Obj *get_attr(Obj *self, const std::string &name);

    // the interpreter lock
    bool gil_held();
    void gil_acquire();
    void gil_release();

    // garbage that a collector will find some day
    void trash(Obj *stolen);
    void maybe_collect();
    void collect_all();
    void gc_seed(uint64_t, int one_in);
    long live_objects();       // Python objects alive, module level ones not counted
    std::string describe_live();
    void module_done();        // everything made so far belongs to the module

    struct InMode { // Python objects do not count as memory of the library
        int o;

        explicit InMode(int m) : o(rt::set_mode(m)) {}

        ~InMode() { rt::set_mode(o); }
    };

    struct Ref { // owning
        Obj *p = nullptr;

        Ref() = default;

        explicit Ref(Obj *stolen) : p(stolen) {}

        Ref(const Ref &) = delete;

        Ref(Ref &&o) noexcept: p(o.p) { o.p = nullptr; }

        Ref &operator=(Ref &&o) noexcept {
            std::swap(p, o.p);
            return *this;
        }

        Obj *release() {
            Obj *r = p;
            p = nullptr;
            return r;
        }

        ~Ref() { if (p) decref(p); }
    };
}
