// The simulated JavaScript engine: values, embind's run-time part, and an interpreter for the little JavaScript that
// native code hands to the Function constructor. Not instrumented.
#include "js/jsobj.h"
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <set>

extern "C" char __data_start, _end;

namespace simjs {
    struct Store {
        std::vector<Class *> classes;
        std::map<std::string, Node *> globals;
        std::vector<Node *> insts, fns;
        std::vector<void (*)()> inits;
    };
    static long handles;

    static Store &st() {
        static Store *s;
        if (!s) {
            InMode q(rt::HARNESS);
            s = new Store();
        }
        return *s;
    }

    void fail(const char *type, const std::string &message) {
        InMode q(rt::HARNESS);
        throw JsError{type, message};
    }

    static Node *mk(Type t) {
        InMode q(rt::HARNESS);
        Node *n = new Node();
        n->type = t;
        return n;
    }

    Node *undef() {
        static Node *u = mk(UNDEF);
        return u;
    }

    Node *null() {
        static Node *u = mk(NUL);
        return u;
    }

    Node *mk_bool(bool b) {
        Node *n = mk(BOOL);
        n->n = b;
        return n;
    }

    Node *mk_num(double d) {
        Node *n = mk(NUM);
        n->n = d;
        return n;
    }

    Node *mk_str(const std::string &s) {
        Node *n = mk(STR);
        InMode q(rt::HARNESS);
        n->s = s;
        return n;
    }

    Node *mk_arr(const Args &a) {
        Node *n = mk(ARR);
        InMode q(rt::HARNESS);
        n->items = a;
        return n;
    }

    Node *mk_obj() { return mk(OBJ); }

    Node *mk_fn(Fn f) {
        Node *n = mk(FUNC);
        InMode q(rt::HARNESS);
        n->fn = std::move(f);
        st().fns.push_back(n);
        return n;
    }

    Node *mk_inst(Class *c, void *p, std::shared_ptr<void> sp) {
        InMode q(rt::HARNESS);
        for (Node *i: st().insts)
            if (!sp && !i->sp && !i->deleted && i->ptr == p && i->cls == c)
                rt::violation("js-owner", "the %s at %p is handed to JavaScript as owner a second time", c->name.c_str(), p);
        Node *n = mk(INST);
        n->cls = c;
        n->ptr = p;
        n->sp = std::move(sp);
        st().insts.push_back(n);
        return n;
    }

    bool truthy(Node *n) {
        switch (n->type) {
            case UNDEF:
            case NUL: return false;
            case BOOL:
            case NUM: return n->n != 0 && n->n == n->n;
            case STR: return !n->s.empty();
            default: return true;
        }
    }

    double number(Node *n) {
        if (n->type == NUM || n->type == BOOL) return n->n;
        fail("TypeError", "Cannot convert \"" + text(n) + "\" to a number");
    }

    std::string text(Node *n) {
        char b[40];
        switch (n->type) {
            case UNDEF: return "undefined";
            case NUL: return "null";
            case BOOL: return n->n ? "true" : "false";
            case NUM:
                if (n->n == std::floor(n->n) && std::fabs(n->n) < 1e15) snprintf(b, sizeof b, "%.0f", n->n);
                else snprintf(b, sizeof b, "%.17g", n->n);
                return b;
            case STR: return n->s;
            case FUNC: return "function";
            case ARR: return "array";
            default: return "[object]";
        }
    }

    const char *type_of(Node *n) {
        static const char *t[] = {"undefined", "object", "boolean", "number", "string", "object", "object", "function", "object"};
        return t[n->type];
    }

    bool same(Node *a, Node *b) {
        if (a->type != b->type) return false;
        switch (a->type) {
            case UNDEF:
            case NUL: return true;
            case BOOL:
            case NUM: return a->n == b->n;
            case STR: return a->s == b->s;
            default: return a == b;
        }
    }

    static void alive(Node *o) {
        if (o->deleted) fail("BindingError", "Cannot pass deleted object as a pointer of type " + o->cls->name + "*");
    }

    void delete_inst(Node *o) {
        if (o->deleted) fail("BindingError", o->cls->name + " instance already deleted");
        o->deleted = true;
        auto &v = st().insts;
        v.erase(std::find(v.begin(), v.end(), o));
        if (o->sp) {
            InMode q(rt::LIB);
            o->sp = nullptr;
        } else o->cls->destroy(o->ptr);
        o->ptr = nullptr;
    }

    void *cast(Node *o, Class *to) {
        if (o->type != INST) fail("BindingError", "Cannot pass \"" + text(o) + "\" as a " + (to ? to->name : "?"));
        alive(o);
        void *p = o->ptr;
        for (Class *c = o->cls; c; c = c->base) {
            if (c == to) return p;
            if (c->base) p = c->up(p);
        }
        fail("BindingError", "Expected null or instance of " + (to ? to->name : "?") + ", got an instance of " + o->cls->name);
    }

    Node *at(Node *o, long k) {
        if (o->type == ARR) return k >= 0 && (size_t) k < o->items.size() ? o->items[k] : undef();
        return get(o, std::to_string(k));
    }

    static Node *prop(Node *o, const std::string &k) {
        for (auto &p: o->props) if (p.first == k) return p.second;
        return nullptr;
    }

    static Node *native(Node *(*f)(Node *, const Args &)) {
        Node *n = mk(FUNC);
        n->fn = f;
        return n;
    }

    static Node *arg0(const Args &a) { return a.empty() ? undef() : a[0]; }

    static Node *method_value(Class *c, const std::string &k) {
        for (Class *b = c; b; b = b->base) {
            auto m = b->methods.find(k);
            if (m == b->methods.end() || m->second.is_static) continue;
            Method *mm = &m->second;
            std::string name = b->name + "." + k;
            Node *n = mk(FUNC);
            n->fn = [mm, name](Node *self, const Args &a) -> Node * {
                if (self->type != INST) fail("BindingError", name + " incompatible with this");
                alive(self);
                auto f = mm->by_arity.find(a.size());
                if (f == mm->by_arity.end()) fail("BindingError", "function " + name + " called with " + std::to_string(a.size()) + " arguments");
                return f->second(self, a);
            };
            return n;
        }
        return nullptr;
    }

    Node *get(Node *o, const std::string &k) {
        if (o->type == UNDEF || o->type == NUL) fail("TypeError", "Cannot read properties of " + text(o) + " (reading '" + k + "')");
        if (o->type == ARR) {
            if (k == "length") return mk_num((double) o->items.size());
            if (!k.empty() && isdigit((unsigned char) k[0])) return at(o, atol(k.c_str()));
            if (k == "push")
                return native([](Node *s, const Args &a) -> Node * {
                    for (Node *x: a) s->items.push_back(x);
                    return mk_num((double) s->items.size());
                });
            if (k == "map" || k == "forEach") {
                bool keep = k == "map";
                Node *n = mk(FUNC);
                n->fn = [keep](Node *s, const Args &a) -> Node * {
                    Args r;
                    for (size_t i = 0; i < s->items.size(); ++i) r.push_back(call(arg0(a), undef(), {s->items[i], mk_num((double) i), s}));
                    return keep ? mk_arr(r) : undef();
                };
                return n;
            }
            if (k == "slice") return native([](Node *s, const Args &) -> Node * { return mk_arr(s->items); });
            if (k == "concat")
                return native([](Node *s, const Args &a) -> Node * {
                    Args r = s->items;
                    for (Node *x: a)
                        if (x->type == ARR) r.insert(r.end(), x->items.begin(), x->items.end());
                        else r.push_back(x);
                    return mk_arr(r);
                });
        }
        if (o->type == STR && k == "length") return mk_num((double) o->s.size());
        if (Node *p = prop(o, k)) return p;
        if (o->type == FUNC) {
            if (k == "call")
                return native([](Node *s, const Args &a) -> Node * { return call(s, arg0(a), a.empty() ? Args() : Args(a.begin() + 1, a.end())); });
            if (k == "apply")
                return native([](Node *s, const Args &a) -> Node * { return call(s, arg0(a), a.size() > 1 && a[1]->type == ARR ? a[1]->items : Args()); });
            if (k == "bind") {
                return native([](Node *s, const Args &a) -> Node * {
                    Node *n = mk(FUNC), *self = arg0(a);
                    Args pre(a.begin() + (a.empty() ? 0 : 1), a.end());
                    n->fn = [s, self, pre](Node *, const Args &b) {
                        Args x = pre;
                        x.insert(x.end(), b.begin(), b.end());
                        return call(s, self, x);
                    };
                    return n;
                });
            }
        }
        if (o->type == INST) {
            if (k == "delete") return native([](Node *s, const Args &) -> Node * { return delete_inst(s), undef(); });
            if (k == "isDeleted") return native([](Node *s, const Args &) -> Node * { return mk_bool(s->deleted); });
            if (Node *m = method_value(o->cls, k)) return m;
            for (Class *c = o->cls; c; c = c->base) {
                auto p = c->props.find(k);
                if (p != c->props.end()) {
                    alive(o);
                    return p->second.first(o, {});
                }
            }
        }
        return undef();
    }

    void set(Node *o, const std::string &k, Node *v) {
        if (o->type == UNDEF || o->type == NUL) fail("TypeError", "Cannot set properties of " + text(o));
        InMode q(rt::HARNESS);
        if (o->type == ARR && !k.empty() && isdigit((unsigned char) k[0])) {
            size_t i = atol(k.c_str());
            while (o->items.size() <= i) o->items.push_back(undef());
            o->items[i] = v;
            return;
        }
        for (auto &p: o->props)
            if (p.first == k) {
                p.second = v;
                return;
            }
        o->props.push_back({k, v});
    }

    Node *call(Node *f, Node *self, const Args &a) {
        InMode q(rt::HARNESS);
        if (f->type != FUNC || !f->fn) fail("TypeError", text(f) + " is not a function");
        Fn g = f->fn;
        return g(self, a);
    }

    Node *construct(Node *f, const Args &a) {
        InMode q(rt::HARNESS);
        if (f->type != FUNC) fail("TypeError", text(f) + " is not a constructor");
        if (f->ctor) {
            Fn g = f->ctor;
            return g(undef(), a);
        }
        Node *o = mk_obj();
        Node *r = call(f, o, a);
        return r->type == OBJ || r->type == ARR || r->type == FUNC || r->type == INST ? r : o;
    }

    Node *call_method(Node *o, const std::string &name, const Args &a) {
        InMode q(rt::HARNESS);
        return call(get(o, name), o, a);
    }

    // ---------------------------------------------------------------- interpreter
    struct Scope {
        std::map<std::string, Node *> vars;
        Scope *up = nullptr;
        Node *self = nullptr; // 'this'; arrow functions have none of their own

        Node **find(const std::string &k) {
            for (Scope *s = this; s; s = s->up) {
                auto i = s->vars.find(k);
                if (i != s->vars.end()) return &i->second;
            }
            return nullptr;
        }
    };

    struct Ret {
        Node *v;
    };

    // evaluates while it reads; skip > 0: reads only
    struct Interp {
        const std::string &src;
        size_t p;
        Scope *sc;
        int skip = 0;

        Interp(const std::string &s, size_t at, Scope *scope) : src(s), p(at), sc(scope) {}

        [[noreturn]] void bad(const char *what) {
            fail("SyntaxError", std::string(what) + " at \"" + src.substr(p, 20) + "\"");
        }

        void ws() {
            while (p < src.size()) {
                if (isspace((unsigned char) src[p])) ++p;
                else if (src.compare(p, 2, "//") == 0) while (p < src.size() && src[p] != '\n') ++p;
                else if (src.compare(p, 2, "/*") == 0) {
                    p = src.find("*/", p);
                    p = p == std::string::npos ? src.size() : p + 2;
                } else break;
            }
        }

        static bool idc(char c) { return isalnum((unsigned char) c) || c == '_' || c == '$'; }

        bool peek(const char *t) {
            ws();
            size_t n = strlen(t);
            if (src.compare(p, n, t)) return false;
            return !idc(t[0]) || p + n >= src.size() || !idc(src[p + n]);
        }

        bool eat(const char *t) {
            if (!peek(t)) return false;
            p += strlen(t);
            return true;
        }

        void need(const char *t) { if (!eat(t)) bad((std::string("expected ") + t).c_str()); }

        std::string ident() {
            ws();
            size_t b = p;
            while (p < src.size() && idc(src[p])) ++p;
            if (b == p) bad("expected a name");
            return src.substr(b, p - b);
        }

        // ---- statements
        void block_end_skip() { // just behind a '{'
            int depth = 1;
            while (p < src.size() && depth) {
                char c = src[p++];
                if (c == '{') ++depth;
                else if (c == '}') --depth;
                else if (c == '"' || c == '\'' || c == '`') {
                    while (p < src.size() && src[p] != c) p += src[p] == '\\' ? 2 : 1;
                    ++p;
                }
            }
            if (depth) bad("unbalanced {");
        }

        Node *program() {
            try {
                while (ws(), p < src.size() && src[p] != '}') statement();
            } catch (const Ret &r) { return r.v; }
            return undef();
        }

        void statement() {
            ws();
            if (eat(";")) return;
            if (eat("{")) {
                while (!peek("}")) statement();
                need("}");
                return;
            }
            if (eat("var") || eat("let") || eat("const")) {
                do {
                    std::string n = ident();
                    Node *v = undef();
                    if (eat("=")) v = expr();
                    if (!skip) sc->vars[n] = v;
                } while (eat(","));
                eat(";");
                return;
            }
            if (eat("return")) {
                Node *v = undef();
                if (!peek(";") && !peek("}") && (ws(), p < src.size())) v = expr();
                eat(";");
                if (!skip) throw Ret{v};
                return;
            }
            if (eat("if")) {
                need("(");
                bool c = truthy(expr());
                need(")");
                skip += !c;
                statement();
                skip -= !c;
                if (eat("else")) {
                    skip += c;
                    statement();
                    skip -= c;
                }
                return;
            }
            if (eat("throw")) {
                Node *v = expr();
                eat(";");
                if (!skip) fail("Error", text(v));
                return;
            }
            if (peek("function")) {
                size_t b = p;
                eat("function");
                ws();
                if (p < src.size() && src[p] != '(') {
                    std::string n = ident();
                    p = b;
                    Node *f = expr();
                    if (!skip) sc->vars[n] = f;
                    return;
                }
                p = b;
            }
            expr();
            eat(";");
        }

        // ---- expressions
        Node *expr() {
            // arrow functions
            size_t b = p;
            if (Node *f = arrow()) return f;
            p = b;
            Node *base = nullptr;
            std::string key;
            int kind = 0; // of the left hand side: 1 variable, 2 member
            Node *v = ternary(base, key, kind);
            if (!peek("==") && !peek("=>") && eat("=")) {
                Node *r = expr();
                if (skip) return undef();
                if (kind == 1) {
                    if (Node **x = sc->find(key)) *x = r;
                    else add_global(key, r);
                } else if (kind == 2) set(base, key, r);
                else bad("can not assign");
                return r;
            }
            return v;
        }

        Node *arrow() {
            std::vector<std::string> ps;
            ws();
            if (p < src.size() && src[p] == '(') {
                ++p;
                while (!peek(")")) {
                    ws();
                    if (p >= src.size() || !idc(src[p])) return nullptr;
                    ps.push_back(ident());
                    if (!eat(",") && !peek(")")) return nullptr;
                }
                eat(")");
            } else if (p < src.size() && (isalpha((unsigned char) src[p]) || src[p] == '_' || src[p] == '$')) ps.push_back(ident());
            else return nullptr;
            if (!eat("=>")) return nullptr;
            ws();
            if (eat("{")) {
                size_t b = p;
                block_end_skip();
                return closure(ps, b, true, true);
            }
            size_t b = p;
            ++skip;
            expr();
            --skip;
            return closure(ps, b, false, true);
        }

        Node *closure(std::vector<std::string> ps, size_t at, bool body, bool arrow_) {
            Scope *up = sc;
            const std::string *text = &src; // programs are never discarded
            Node *n = mk(FUNC);
            n->fn = [ps, at, body, up, text, arrow_](Node *self, const Args &a) -> Node * {
                Scope *s = new Scope();
                s->up = up;
                if (!arrow_) s->self = self;
                for (size_t k = 0; k < ps.size(); ++k) s->vars[ps[k]] = k < a.size() ? a[k] : undef();
                if (!arrow_) s->vars["arguments"] = mk_arr(a);
                Interp i(*text, at, s);
                return body ? i.program() : i.expr();
            };
            return n;
        }

        Node *ternary(Node *&base, std::string &key, int &kind) {
            Node *c = logic(base, key, kind);
            if (!eat("?")) return c;
            kind = 0;
            bool t = truthy(c);
            skip += !t;
            Node *a = expr();
            skip -= !t;
            need(":");
            skip += t;
            Node *b = expr();
            skip -= t;
            return t ? a : b;
        }

        Node *logic(Node *&base, std::string &key, int &kind) {
            Node *a = compare(base, key, kind);
            while (true) {
                bool is_and;
                if (eat("&&")) is_and = true;
                else if (eat("||")) is_and = false;
                else return a;
                kind = 0;
                bool go = truthy(a) == is_and;
                Node *b;
                std::string k;
                int kk = 0;
                skip += !go;
                Node *r = compare(b, k, kk);
                skip -= !go;
                if (go) a = r;
            }
        }

        Node *compare(Node *&base, std::string &key, int &kind) {
            Node *a = sum(base, key, kind);
            while (true) {
                int op = eat("===") || (!peek("===") && eat("==")) ? 1 : eat("!==") || (!peek("!==") && eat("!=")) ? 2 :
                         eat("instanceof") ? 3 : eat("<=") ? 4 : eat(">=") ? 5 : eat("<") ? 6 : eat(">") ? 7 : 0;
                if (!op) return a;
                kind = 0;
                Node *b0;
                std::string k;
                int kk = 0;
                Node *b = sum(b0, k, kk);
                if (skip) continue;
                if (op <= 2) a = mk_bool(same(a, b) == (op == 1));
                else if (op == 3) a = mk_bool(b == global("Array") ? a->type == ARR : b == global("Function") ? a->type == FUNC : false);
                else {
                    double x = number(a), y = number(b);
                    a = mk_bool(op == 4 ? x <= y : op == 5 ? x >= y : op == 6 ? x < y : x > y);
                }
            }
        }

        Node *sum(Node *&base, std::string &key, int &kind) {
            Node *a = unary(base, key, kind);
            while (true) {
                char c = (ws(), p < src.size() ? src[p] : 0);
                if ((c != '+' && c != '-' && c != '*' && c != '/') || (p + 1 < src.size() && (src[p + 1] == '=' || src[p + 1] == c))) return a;
                ++p;
                kind = 0;
                Node *b0;
                std::string k;
                int kk = 0;
                Node *b = unary(b0, k, kk);
                if (skip) continue;
                if (c == '+' && (a->type == STR || b->type == STR)) a = mk_str(text(a) + text(b));
                else {
                    double x = number(a), y = number(b);
                    a = mk_num(c == '+' ? x + y : c == '-' ? x - y : c == '*' ? x * y : x / y);
                }
            }
        }

        Node *unary(Node *&base, std::string &key, int &kind) {
            Node *b0 = nullptr;
            std::string k;
            int kk = 0;
            if (!peek("!=") && eat("!")) return mk_bool(!truthy(unary(b0, k, kk)));
            if (eat("typeof")) return mk_str(type_of(unary(b0, k, kk)));
            if (eat("void")) return unary(b0, k, kk), undef();
            if (!peek("--") && eat("-")) return mk_num(-number(unary(b0, k, kk)));
            return postfix(base, key, kind);
        }

        Args arguments_() {
            Args r;
            while (!peek(")")) {
                if (eat("...")) {
                    Node *x = expr();
                    if (!skip) r.insert(r.end(), x->items.begin(), x->items.end());
                } else r.push_back(expr());
                if (!eat(",")) break;
            }
            need(")");
            return r;
        }

        Node *postfix(Node *&base, std::string &key, int &kind) {
            Node *self = undef();
            bool isnew = eat("new");
            Node *v = primary(key, kind);
            while (true) {
                if (!peek("...") && eat(".")) {
                    key = ident();
                    base = self = v;
                    kind = 2;
                    if (!skip) v = peek("=") && !peek("==") ? undef() : get(v, key);
                } else if (eat("[")) {
                    Node *k = expr();
                    need("]");
                    key = text(k);
                    base = self = v;
                    kind = 2;
                    if (!skip) v = peek("=") && !peek("==") ? undef() : get(v, key);
                } else if (eat("(")) {
                    Args a = arguments_();
                    kind = 0;
                    if (!skip) v = isnew ? construct(v, a) : call(v, self, a);
                    isnew = false;
                    self = undef();
                } else return v;
            }
        }

        Node *primary(std::string &key, int &kind) {
            ws();
            kind = 0;
            if (p >= src.size()) bad("unexpected end");
            char c = src[p];
            if (eat("(")) {
                Node *v = expr();
                while (eat(",")) v = expr();
                need(")");
                return v;
            }
            if (eat("[")) {
                Args a;
                while (!peek("]")) {
                    a.push_back(expr());
                    if (!eat(",")) break;
                }
                need("]");
                return mk_arr(a);
            }
            if (eat("{")) {
                Node *o = mk_obj();
                while (!peek("}")) {
                    ws();
                    std::string k = src[p] == '"' || src[p] == '\'' ? literal() : ident();
                    Node *v;
                    if (eat(":")) v = expr();
                    else if (peek("(")) v = function_rest();
                    else {
                        Node **x = skip ? nullptr : sc->find(k);
                        v = x ? *x : undef();
                    }
                    if (!skip) set(o, k, v);
                    if (!eat(",")) break;
                }
                need("}");
                return o;
            }
            if (c == '"' || c == '\'' || c == '`') return mk_str(literal());
            if (isdigit((unsigned char) c) || (c == '.' && p + 1 < src.size() && isdigit((unsigned char) src[p + 1]))) {
                char *e;
                double d = strtod(src.c_str() + p, &e);
                p = e - src.c_str();
                return mk_num(d);
            }
            if (eat("function")) {
                ws();
                if (p < src.size() && src[p] != '(') ident();
                return function_rest();
            }
            if (eat("true")) return mk_bool(true);
            if (eat("false")) return mk_bool(false);
            if (eat("null")) return null();
            if (eat("undefined")) return undef();
            if (eat("this")) {
                for (Scope *s = sc; s; s = s->up) if (s->self) return s->self;
                return undef();
            }
            key = ident();
            kind = 1;
            if (skip) return undef();
            if (Node **x = sc->find(key)) return *x;
            if (peek("=") && !peek("==")) return undef();
            auto g = st().globals.find(key);
            if (g == st().globals.end()) fail("ReferenceError", key + " is not defined");
            return g->second;
        }

        std::string literal() {
            char q = src[p++];
            std::string r;
            while (p < src.size() && src[p] != q) {
                if (src[p] == '\\') ++p;
                r += src[p++];
            }
            ++p;
            return r;
        }

        Node *function_rest() {
            need("(");
            std::vector<std::string> ps;
            while (!peek(")")) {
                ps.push_back(ident());
                if (!eat(",")) break;
            }
            need(")");
            need("{");
            size_t b = p;
            block_end_skip();
            return closure(ps, b, true, false);
        }
    };

    Node *function_of(const std::vector<std::string> &params, const std::string &body) {
        InMode q(rt::HARNESS);
        std::string *text = new std::string(body);
        Scope *s = new Scope();
        Interp i(*text, 0, s);
        return i.closure(params, 0, true, false);
    }

    Node *global(const std::string &name) {
        InMode q(rt::HARNESS);
        auto &g = st().globals;
        if (g.empty()) {
            Node *a = mk(FUNC);
            a->fn = a->ctor = [](Node *, const Args &x) -> Node * {
                if (x.size() == 1 && x[0]->type == NUM) {
                    Node *r = mk_arr({});
                    r->items.assign((size_t) x[0]->n, undef());
                    return r;
                }
                return mk_arr(x);
            };
            set(a, "isArray", native([](Node *, const Args &x) -> Node * { return mk_bool(arg0(x)->type == ARR); }));
            set(a, "from", native([](Node *, const Args &x) -> Node * { return mk_arr(arg0(x)->items); }));
            set(a, "of", native([](Node *, const Args &x) -> Node * { return mk_arr(x); }));
            g["Array"] = a;
            Node *t = mk(FUNC);
            t->ctor = [](Node *, const Args &x) -> Node * {
                Node *f = arg0(x);
                return f->type == ARR ? mk_arr(f->items) : mk_arr(Args((size_t) (f->type == NUM ? f->n : 0), mk_num(0)));
            };
            g["Float64Array"] = t;
            Node *f = mk(FUNC);
            f->fn = f->ctor = [](Node *, const Args &x) -> Node * {
                std::vector<std::string> ps;
                for (size_t k = 0; k + 1 < x.size(); ++k) {
                    std::string s = text(x[k]), w;
                    for (char c: s + ",")
                        if (c == ',') {
                            if (!w.empty()) ps.push_back(w);
                            w.clear();
                        } else if (!isspace((unsigned char) c)) w += c;
                }
                return function_of(ps, x.empty() ? "" : text(x.back()));
            };
            g["Function"] = f;
            Node *o = mk(FUNC);
            o->fn = o->ctor = [](Node *, const Args &x) -> Node * { return x.empty() ? mk_obj() : x[0]; };
            set(o, "assign", native([](Node *, const Args &x) -> Node * {
                for (size_t k = 1; k < x.size(); ++k) for (auto &p: x[k]->props) set(x[0], p.first, p.second);
                return arg0(x);
            }));
            set(o, "freeze", native([](Node *, const Args &x) -> Node * { return arg0(x); }));
            set(o, "defineProperty", native([](Node *, const Args &x) -> Node * {
                if (x.size() > 2) set(x[0], text(x[1]), get(x[2], "value"));
                return arg0(x);
            }));
            g["Object"] = o;
            Node *n = mk(FUNC);
            n->fn = [](Node *, const Args &x) -> Node * { return mk_num(number(arg0(x))); };
            set(n, "isFinite", native([](Node *, const Args &x) -> Node * { return mk_bool(arg0(x)->type == NUM && std::isfinite(arg0(x)->n)); }));
            set(n, "isInteger", native([](Node *, const Args &x) -> Node * { return mk_bool(arg0(x)->type == NUM && arg0(x)->n == std::floor(arg0(x)->n)); }));
            g["Number"] = n;
            Node *gt = mk_obj();
            g["globalThis"] = gt;
            g["Module"] = gt;
        }
        auto i = g.find(name);
        return i == g.end() ? undef() : i->second;
    }

    void add_global(const std::string &name, Node *n) {
        global("Array");
        InMode q(rt::HARNESS);
        st().globals[name] = n;
    }

    // ---------------------------------------------------------------- embind
    Class *class_of(const std::type_info &t) {
        for (Class *c: st().classes) if (*c->type == t) return c;
        return nullptr;
    }

    Class *make_class(const std::type_info &t, const std::string &name) {
        InMode q(rt::HARNESS);
        if (class_of(t)) fail("BindingError", "Cannot register type '" + name + "' twice");
        Class *c = new Class();
        c->name = name;
        c->type = &t;
        st().classes.push_back(c);
        Node *f = mk(FUNC);
        f->ctor = [c](Node *, const Args &a) -> Node * {
            if (c->ctors.empty()) fail("BindingError", c->name + " has no accessible constructor");
            auto i = c->ctors.find(a.size());
            if (i == c->ctors.end())
                fail("BindingError", "Tried to invoke ctor of " + c->name + " with invalid number of parameters (" + std::to_string(a.size()) + ")");
            return i->second(nullptr, a);
        };
        f->fn = [c](Node *, const Args &) -> Node * { fail("BindingError", "Use 'new' to construct " + c->name); };
        c->object = f;
        add_global(name, f);
        return c;
    }

    static bool is_static(const void *p) { return p >= (void *) &__data_start && p < (void *) &_end; }

    void handle_new(const void *where, Node *n) {
        if (is_static(where)) return;
        ++n->handles;
        ++handles;
    }

    void handle_gone(const void *where, Node *n) {
        if (is_static(where)) return;
        --n->handles;
        --handles;
    }

    long live_handles() { return handles; }

    long live_instances(std::string *names) {
        for (Node *i: st().insts) if (names && names->size() < 200) *names += " " + i->cls->name;
        return (long) st().insts.size();
    }

    void add_init(void (*f)()) {
        InMode q(rt::HARNESS);
        st().inits.push_back(f);
    }

    void run_inits() {
        for (auto f: st().inits) {
            InMode q(rt::LIB);
            f();
        }
    }

    void forget_functions() {
        InMode q(rt::HARNESS);
        for (Node *f: st().fns) f->fn = nullptr;
        st().fns.clear();
    }
}
