// Executes specification actions on the real library through its public API.
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <functional>
#include "values.h"
#include "pico-cnn/pico-cnn.h"

using namespace pico_cnn::naive;
using pico_cnn::op_type;

struct Mismatch : std::runtime_error { using std::runtime_error::runtime_error; };
template <class... A> static std::string cat(const A &...a) { std::ostringstream o; (void) std::initializer_list<int>{((o << a), 0)...}; return o.str(); }

struct AnyLayer {
    std::function<void(Tensor *, Tensor *)> run;
    std::function<void()> del;
    std::function<Layer *()> base;
};
template <class L> static AnyLayer wrap(L *l) {
    AnyLayer a;
    a.run = [l](Tensor *i, Tensor *o) { l->run(i, o); };
    a.del = [l]() { delete l; };
    a.base = [l]() { return (Layer *) l; };   // some layers inherit from Layer privately
    return a;
}

static Tensor *make_tensor(const std::vector<unsigned> &s) {
    switch (s.size()) {
        case 1: return new Tensor(s[0]);
        case 2: return new Tensor(s[0], s[1]);
        case 3: return new Tensor(s[0], s[1], s[2]);
        case 4: return new Tensor(s[0], s[1], s[2], s[3]);
    }
    throw std::runtime_error("bad rank");
}

// a caller's parameter array: exactly `len` entries, destroyed after the call
struct Arr {
    uint32_t *p = nullptr; size_t n;
    Arr(const std::vector<unsigned> &v, size_t len) : n(len) {
        p = (uint32_t *) malloc(len * sizeof(uint32_t));
        for (size_t i = 0; i < len; i++) p[i] = i < v.size() ? v[i] : 7777777u;
    }
    ~Arr() { for (size_t i = 0; i < n; i++) p[i] = 123456789u; free(p); }
};

struct Session {
    std::map<std::string, Tensor *> ts;
    std::map<std::string, std::vector<float>> shadow;
    std::map<std::string, std::vector<unsigned>> shapes;
    std::map<std::string, AnyLayer> ls;
    uint32_t next_id = 0;

    ~Session() {
        for (auto &l : ls) l.second.del();
        for (auto &t : ts) delete t.second;
    }
    Tensor *T(const std::string &id) {
        if (id.empty()) return nullptr;
        auto i = ts.find(id); if (i == ts.end()) throw std::runtime_error("no tensor " + id); return i->second;
    }
    size_t numel(const std::string &id) { size_t r = 1; for (auto x : shapes.at(id)) r *= x; return r; }
    void adopt(const std::string &id, Tensor *t, const std::vector<unsigned> &sh) {
        if (ts.count(id)) { delete ts[id]; }
        ts[id] = t; shapes[id] = sh;
        if (t->num_dimensions() != sh.size()) throw Mismatch(cat("tensor ", id, " has rank ", t->num_dimensions(), ", expected ", sh.size()));
        for (size_t i = 0; i < sh.size(); i++)
            if (t->shape_[i] != sh[i]) throw Mismatch(cat("tensor ", id, " has size ", t->shape_[i], " in dimension ", i, ", expected ", sh[i]));
        if (t->num_elements() != numel(id)) throw Mismatch(cat("tensor ", id, " reports ", t->num_elements(), " elements, expected ", numel(id)));
    }
    void snap(const std::string &id) {
        size_t n = numel(id); auto &v = shadow[id]; v.resize(n); Tensor *t = ts[id];
        for (size_t i = 0; i < n; i++) v[i] = t->access_blob((uint32_t) i);
    }
    void check_unchanged(const std::string &id) {
        size_t n = numel(id); auto &v = shadow[id]; Tensor *t = ts[id];
        auto &sh = shapes[id];
        if (t->num_elements() != n || t->num_dimensions() != sh.size()) throw Mismatch(cat("tensor ", id, " changed its shape"));
        for (size_t i = 0; i < sh.size(); i++) if (t->shape_[i] != sh[i]) throw Mismatch(cat("tensor ", id, " changed its shape"));
        for (size_t i = 0; i < n; i++)
            if (fbits(v[i]) != fbits(t->access_blob((uint32_t) i)))
                throw Mismatch(cat("tensor ", id, " element ", i, " changed from ", v[i], " to ", t->access_blob((uint32_t) i), " though the operation does not write it"));
    }
    void check_value(const std::string &id, const Val &e) {
        Tensor *t = ts.at(id);
        if (e.d.size() != numel(id)) throw std::runtime_error("expected value has wrong size for " + id);
        for (size_t i = 0; i < e.d.size(); i++) {
            float g = t->access_blob((uint32_t) i);
            if (!e.matches(i, g)) {
                char buf[200]; snprintf(buf, sizeof buf, "element %zu is %.9g (0x%08x), expected %.9g", i, g, fbits(g), e.m == 'o' ? (double) ordf(e.d[i]) : e.dbl(i));
                throw Mismatch(cat("tensor ", id, " ", buf));
            }
        }
    }
    float number(long long v, const std::string &like, const J &e) {  // a scalar in the mode of tensor `like`
        (void) like;
        if (e["m"].str() == "o") return ordf(v);
        return (float) std::ldexp((double) v, (int) e["x"].n());
    }

    void make_layer(const std::string &id, const J &L) {
        const std::string &k = L["kind"].str();
        // a scenario may name the layer, number it and state its operation itself
        const bool named = L.has("name");
        uint32_t n = named ? (uint32_t) L["num"].n() : next_id++;
        AnyLayer r;
        auto nm = [&](const char *p) { return named ? L["name"].str() : p + id; };
        auto ty = [&](op_type t) { return named ? (op_type) L["type"].n() : t; };
        auto opt = [&](const char *f, size_t len) -> std::unique_ptr<Arr> {
            if (L[f].size() == 0) return nullptr;
            return std::unique_ptr<Arr>(new Arr(L[f].u32(), len)); };
        if (k == "conv") {
            auto p = opt("pads", 4); auto s = opt("strides", 2);
            r = wrap(new Convolution(nm("c"), n, ty(op_type::Conv), T(L["w"].str()), T(L["b"].str()), p ? p->p : nullptr, s->p, (uint32_t) L["groups"].n()));
        } else if (k == "maxpool") {
            auto kk = opt("kernel", 2); auto p = opt("pads", 4); auto s = opt("strides", 2);
            r = wrap(new MaxPooling(nm("m"), n, ty(op_type::MaxPool), kk->p, s->p, p ? p->p : nullptr));
        } else if (k == "avgpool") {
            auto kk = opt("kernel", 2); auto p = opt("pads", 4); auto s = opt("strides", 2);
            r = wrap(new AveragePooling(nm("a"), n, ty(op_type::AveragePool), kk->p, s->p, p ? p->p : nullptr, L["incl"].b));
        } else if (k == "gmax") r = wrap(new GlobalMaxPooling(nm("g"), n, ty(op_type::GlobalMaxPool), nullptr, nullptr, nullptr));
        else if (k == "gavg") r = wrap(new GlobalAveragePooling(nm("g"), n, ty(op_type::GlobalAveragePool), nullptr, nullptr, nullptr));
        else if (k == "fc") r = wrap(new FullyConnected(nm("f"), n, ty(op_type::Gemm), T(L["w"].str()), T(L["b"].str())));
        else if (k == "matmul") r = wrap(new MatMul(nm("f"), n, ty(op_type::MatMul), T(L["w"].str())));
        else if (k == "bn") r = wrap(new BatchNormalization(nm("b"), n, ty(op_type::BatchNormalization), T(L["gamma"].str()), T(L["beta"].str()),
                    T(L["mean"].str()), T(L["var"].str()), (float) std::ldexp((double) L["en"].n(), -(int) L["ex"].n())));
        else if (k == "ident") r = wrap(new ActivationFunction(nm("i"), n, ty(op_type::Unknown)));
        else if (k == "relu") r = wrap(new ReLU(nm("r"), n, ty(op_type::ReLU)));
        else if (k == "leaky") r = wrap(new LeakyReLU(nm("r"), n, ty(op_type::LeakyReLU), (float) std::ldexp((double) L["ln"].n(), -(int) L["lx"].n())));
        else if (k == "prelu") r = wrap(new ParameterizedReLU(nm("r"), n, ty(op_type::ParamReLU), T(L["slope"].str())));
        else if (k == "clip") {
            float lo, hi;
            if (L["m"].str() == "o") { lo = ordf(L["lo"].n()); hi = ordf(L["hi"].n()); }
            else { lo = (float) L["lo"].n(); hi = (float) L["hi"].n(); }
            r = wrap(new Clip(nm("r"), n, ty(op_type::Clip), lo, hi));
        } else if (k == "sigmoid") r = wrap(new Sigmoid(nm("s"), n, ty(op_type::Sigmoid)));
        else if (k == "tanh") r = wrap(new TanH(nm("s"), n, ty(op_type::TanH)));
        else if (k == "softmax") r = wrap(new Softmax(nm("s"), n, ty(op_type::Softmax)));
        else if (k == "lrn") r = wrap(new LRN(nm("l"), n, ty(op_type::LRN), (float) ((double) L["an"].n() / (double) L["ad"].n()), (float) (L["b4"].n() / 4.0), (uint16_t) L["n"].n()));
        else throw std::runtime_error("layer kind " + k);
        ls[id] = r;
        uses[id].clear();
        for (const char *p : {"w", "b", "gamma", "beta", "mean", "var", "slope"}) if (L.has(p) && L[p].t == J::STR) uses[id].push_back(L[p].str());
    }
    // Only what a run changes and what it depends on is judged: results are kept in `pure` the first
    // time the history is run and compared the second time.
    std::vector<std::vector<uint32_t>> *pure = nullptr; bool second = false; size_t runs = 0;
    std::map<std::string, std::vector<std::string>> uses;
    bool takes(const std::string &l, const std::string &t) { for (auto &x : uses[l]) if (x == t) return true; return false; }

    // "%" in the layout stands for the next element; numbers look as the stream is set up to print them
    void show(Tensor &t, const std::string &fmt, const std::string &layout) {
        auto setup = [&](std::ostream &o) {
            if (fmt == "precise") o.precision(9);
            else if (fmt == "fixed") { o.setf(std::ios::fixed, std::ios::floatfield); o.precision(3); }
            else if (fmt == "scientific") { o.setf(std::ios::scientific, std::ios::floatfield); o.precision(2); }
            else if (fmt == "sign") o.setf(std::ios::showpos);
        };
        std::ostringstream got, want;
        setup(got); setup(want);
        auto flags = got.flags(); auto prec = got.precision();
        got << "<" << t << ">";
        want << "<"; uint32_t k = 0;
        for (char c : layout) { if (c == '%') want << t.access_blob(k++); else want << c; }
        want << ">";
        if (got.str() != want.str()) throw Mismatch(cat("printing gives\n", got.str().substr(0, 400), "\nexpected\n", want.str().substr(0, 400)));
        if (got.flags() != flags || got.precision() != prec) throw Mismatch("printing changes the stream's format");
    }
    // returns the observed outcome as text comparable with the expected one
    void apply(const J &a, const J &lg) {
        const std::string &op = a["op"].str();
        const J &exp = lg["o"];
        const std::string &ek = exp["k"].str();
        const J &w = lg["w"];
        auto expect_bool = [&](bool v) { if (ek == "bool" && v != exp["v"].b) throw Mismatch(cat(op, " returned ", v, ", expected ", exp["v"].b)); };
        if (op == "new") {
            auto sh = a["sh"].u32(); const std::string &id = a["id"].str();
            adopt(id, make_tensor(sh), sh);
            for (size_t i = 0; i < numel(id); i++)
                if (fbits(ts[id]->access_blob((uint32_t) i)) != 0) throw Mismatch(cat("new tensor ", id, " element ", i, " is not +0"));
            snap(id);
        } else if (op == "free") {
            const std::string &id = a["id"].str(); delete T(id); ts.erase(id); shapes.erase(id); shadow.erase(id);
        } else if (op == "fill") {
            const std::string &id = a["id"].str(); Val v(w[id.c_str()]);
            for (size_t i = 0; i < v.d.size(); i++) ts.at(id)->access_blob((uint32_t) i) = v.flt(i);
        } else if (op == "poke") {
            element(a) = (float) a["v"].n();
        } else if (op == "peek") {
            float g = element(a);
            if (g != (float) exp["v"].n()) throw Mismatch(cat("access path ", a["path"].str(), " of ", a["id"].str(), " reads ", g, ", expected ", exp["v"].n()));
            Tensor *t = T(a["id"].str());
            if (&element(a) != &t->access_blob((uint32_t) exp["flat"].n())) throw Mismatch(cat("access path ", a["path"].str(), " of ", a["id"].str(), " names another element than flat index ", exp["flat"].n()));
        } else if (op == "meta") {
            Tensor *t = T(a["id"].str());
            auto chk = [&](const char *f, long long g) { if (g != exp[f].n()) throw Mismatch(cat(f, " of ", a["id"].str(), " is ", g, ", expected ", exp[f].n())); };
            chk("rank", t->num_dimensions()); chk("numel", t->num_elements()); chk("bytes", t->size_bytes());
            chk("batches", t->num_batches()); chk("channels", t->num_channels());
            if (exp["rank"].n() > 1) { chk("height", t->height()); chk("width", t->width()); }
        } else if (op == "height" || op == "width") {
            Tensor *t = T(a["id"].str());
            uint32_t g = op == "height" ? t->height() : t->width();
            if (ek == "num" && g != (uint32_t) exp["v"].n()) throw Mismatch(cat(op, " is ", g, ", expected ", exp["v"].n()));
        } else if (op == "padnew" || op == "padinto") {
            Tensor *src = T(a["src"].str()); const std::string &d = a["dst"].str();
            Arr p(a["pads"].u32(), src->num_dimensions() == 3 ? 2 : 4);
            const J &e = w[d.c_str()]; float ini = number(a["init"].n(), d, e);
            if (op == "padnew") {
                Tensor *r = (a["init"].n() == 0 && fbits(ini) == 0) ? src->expand_with_padding(p.p) : src->expand_with_padding(p.p, ini);
                adopt(d, r, e["sh"].u32());
            } else {
                Tensor *r = (a["init"].n() == 0 && fbits(ini) == 0) ? src->copy_with_padding_into(T(d), p.p) : src->copy_with_padding_into(T(d), p.p, ini);
                (void) r;
            }
        } else if (op == "copy") T(a["src"].str())->copy_data_into(T(a["dst"].str()));
        else if (op == "cat") {
            size_t n = a["srcs"].size(); Tensor **in = (Tensor **) malloc(n * sizeof(Tensor *));
            for (size_t i = 0; i < n; i++) in[i] = T(a["srcs"][i].str());
            T(a["dst"].str())->concatenate_from((uint32_t) n, in, (uint32_t) a["dim"].n());
            for (size_t i = 0; i < n; i++) if (in[i] != T(a["srcs"][i].str())) throw Mismatch("concatenation changed the list of inputs");
            free(in);
        } else if (op == "add") { bool r = T(a["dst"].str())->add_tensor(T(a["src"].str())); expect_bool(r); }
        else if (op == "addch") { bool r = T(a["dst"].str())->add_channel(T(a["src"].str()), (uint32_t) a["b"].n(), (uint32_t) a["c"].n()); expect_bool(r); }
        else if (op == "mul") T(a["src"].str())->mul_with_factor(T(a["dst"].str()), (float) std::ldexp((double) a["fn"].n(), -(int) a["fx"].n()));
        else if (op == "eq") { bool r = *T(a["l"].str()) == *T(a["r"].str()); expect_bool(r); }
        else if (op == "show") show(*T(a["id"].str()), a["fmt"].str(), exp["v"].str());
        else if (op == "who") {
            Layer *l = ls.at(a["id"].str()).base();
            if (l->name() != exp["name"].str()) throw Mismatch(cat("the layer's name is ", l->name(), ", expected ", exp["name"].str()));
            if (l->id() != (uint32_t) exp["num"].n()) throw Mismatch(cat("the layer's number is ", l->id(), ", expected ", exp["num"].n()));
            if (l->op() != (op_type) exp["type"].n()) throw Mismatch(cat("the layer's operation is ", (int) l->op(), ", expected ", exp["type"].n()));
        }
        else if (op == "mk") make_layer(a["id"].str(), a["layer"]);
        else if (op == "del") { ls.at(a["id"].str()).del(); ls.erase(a["id"].str()); }
        else if (op == "run") {
            const std::string &id = a["id"].str(), &out = a["out"].str();
            if (pure && second && out != a["in"].str() && !takes(id, out))     // whatever was there must not matter
                for (size_t i = 0; i < numel(out); i++) ts.at(out)->access_blob((uint32_t) i) = i % 3 ? bitsf(0x7fc5a5a5u) : -3.0e33f;
            ls.at(id).run(T(a["in"].str()), T(out));
            if (pure && ek != "die") {
                std::vector<uint32_t> got; for (size_t i = 0; i < numel(out); i++) got.push_back(fbits(ts.at(out)->access_blob((uint32_t) i)));
                if (!second) pure->push_back(got);
                else {
                    auto &was = pure->at(runs++);
                    for (size_t i = 0; i < got.size(); i++)
                        if (got[i] != was.at(i)) throw Mismatch(cat("repeating the history on an output with other content, element ", i, " of ", out, " becomes ", bitsf(got[i]), " instead of ", bitsf(was[i])));
                    if (out != a["in"].str() && !takes(id, out)) {      // and once more, at once, over its own result
                        ls.at(id).run(T(a["in"].str()), T(out));
                        for (size_t i = 0; i < got.size(); i++) if (fbits(ts.at(out)->access_blob((uint32_t) i)) != was.at(i))
                            throw Mismatch(cat("running the layer again at once, element ", i, " of ", out, " becomes ", ts.at(out)->access_blob((uint32_t) i), " instead of ", bitsf(was[i])));
                    }
                }
            }
        }
        else throw std::runtime_error("unknown action " + op);

        if (ek == "die") return;   // the caller reports that we got here
        if (!(pure && op == "run")) for (auto &p : w.o) if (p.second.t == J::OBJ) { check_value(p.first, Val(p.second)); }
        for (auto &p : ts) if (!w.has(p.first.c_str())) check_unchanged(p.first); else snap(p.first);
    }
    float &element(const J &a) {
        Tensor *t = T(a["id"].str()); const std::string &path = a["path"].str();
        auto at = a["at"].u32(); auto &sh = shapes.at(a["id"].str());
        size_t r = sh.size();
        if (path == "multi") {
            if (r == 1) return t->access(at[3]);
            if (r == 2) return t->access(at[2], at[3], t->width());
            if (r == 3) return t->access(at[0], at[1], at[3], t->num_channels(), t->width());
            return t->access(at[0], at[1], at[2], at[3], t->num_channels(), t->height(), t->width());
        }
        if (path == "chan") {   // pointer to the channel
            unsigned wdt = sh[r - 1];
            return t->get_ptr_to_channel(at[0], at[1])[at[2] * wdt + at[3]];
        }
        if (path == "blob" || path == "flat") {
            size_t b = at[0], c = at[1], i = at[2], j = at[3];
            size_t C = r >= 3 ? sh[1] : 1, H = r == 4 ? sh[2] : r == 2 ? sh[0] : 1, W = sh[r - 1];
            uint32_t k = (uint32_t) (((b * C + c) * H + i) * W + j);
            return path == "blob" ? t->access_blob(k) : t->access(k);
        }
        throw std::runtime_error("path");
    }
};
