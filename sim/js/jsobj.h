// The values of the simulated JavaScript engine, and the part of embind that is not templates. Values are never
// collected: what counts is how many handles C++ code holds on them and which C++ objects were not deleted.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeindex>
#include <utility>
#include <vector>
#include "../rt.h"

namespace simjs {
    struct InMode {
        int o;

        explicit InMode(int m) : o(rt::set_mode(m)) {}

        ~InMode() { rt::set_mode(o); }
    };

    enum Type {
        UNDEF, NUL, BOOL, NUM, STR, OBJ, ARR, FUNC, INST
    };

    struct Node;
    typedef std::vector<Node *> Args;
    typedef std::function<Node *(Node *self, const Args &)> Fn;

    struct Method { // overloaded by the number of arguments only
        std::map<size_t, Fn> by_arity;
        bool is_static = false;
    };

    struct Class {
        std::string name;
        const std::type_info *type = nullptr;
        Class *base = nullptr;
        void *(*up)(void *) = nullptr;
        void (*destroy)(void *) = nullptr;
        std::map<size_t, Fn> ctors;
        std::map<std::string, Method> methods;
        std::map<std::string, std::pair<Fn, Fn>> props;
        Node *object = nullptr; // what scripts call
    };

    struct Node {
        Type type = UNDEF;
        double n = 0;
        std::string s;
        std::vector<std::pair<std::string, Node *>> props;
        std::vector<Node *> items;
        Fn fn, ctor;
        Class *cls = nullptr;       // instance
        void *ptr = nullptr;
        std::shared_ptr<void> sp;
        bool deleted = false, owned = true;
        long handles = 0;           // of C++ code
    };

    struct JsError { // thrown by the engine or by embind's glue
        std::string type, message;
    };

    [[noreturn]] void fail(const char *type, const std::string &message);

    Node *undef();
    Node *null();
    Node *mk_bool(bool);
    Node *mk_num(double);
    Node *mk_str(const std::string &);
    Node *mk_arr(const Args &);
    Node *mk_obj();
    Node *mk_fn(Fn);
    Node *mk_inst(Class *, void *, std::shared_ptr<void> = nullptr);

    Node *get(Node *o, const std::string &key);
    Node *at(Node *o, long k);
    void set(Node *o, const std::string &key, Node *v);
    Node *call(Node *f, Node *self, const Args &);
    Node *construct(Node *f, const Args &);
    Node *call_method(Node *o, const std::string &name, const Args &);
    Node *global(const std::string &name);
    Node *function_of(const std::vector<std::string> &params, const std::string &body);
    bool truthy(Node *);
    double number(Node *);       // throws when it is none
    std::string text(Node *);
    const char *type_of(Node *);
    bool same(Node *, Node *);
    void delete_inst(Node *);    // .delete()
    void *cast(Node *, Class *to); // pointer to the object as class 'to'

    Class *class_of(const std::type_info &);
    Class *make_class(const std::type_info &, const std::string &name);
    void add_global(const std::string &name, Node *);

    void handle_new(const void *where, Node *);
    void handle_gone(const void *where, Node *);
    long live_handles();          // outside static storage
    long live_instances(std::string *names);
    void add_init(void (*)());
    void run_inits();
    void forget_functions();      // scripts are over
}
