// Lives with generated networks: replays histories of creating, loading, running and destroying them.
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <csignal>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include "session.h"
#include "runner.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);

struct NetFns {
    void *(*create)(); void (*destroy)(void *); void (*run)(void *, Tensor *, Tensor *);
    Tensor ***(*kernels)(void *); Tensor ***(*biases)(void *);
};
static bool opt(const char *n) { const char *v = getenv(n); return v && *v == '1'; }

static NetFns net_fns(const std::string &so, const std::string &fn) {
    static std::string last; static void *h = nullptr;
    if (so != last) {
        if (h) dlclose(h);
        h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { std::string e = dlerror(); last = ""; throw std::runtime_error("dlopen " + e); }
        last = so;
    }
    NetFns f;
    auto sym = [&](const char *s) { void *p = dlsym(h, (fn + s).c_str()); if (!p) throw std::runtime_error("no symbol " + fn + s); return p; };
    f.create = (void *(*)()) sym("_create"); f.destroy = (void (*)(void *)) sym("_destroy"); f.run = (void (*)(void *, Tensor *, Tensor *)) sym("_run");
    f.kernels = (Tensor ***(*)(void *)) sym("_kernels"); f.biases = (Tensor ***(*)(void *)) sym("_biases");
    return f;
}

struct RunIo { std::vector<unsigned> ish, osh; std::vector<float> in; std::shared_ptr<Val> out; };

static void fill(Tensor *t, const std::vector<float> &v) { for (size_t i = 0; i < v.size(); i++) t->access_blob((uint32_t) i) = v[i]; }

// every slot the network owns holds one of the model's parameters, and every parameter is in some slot
static void check_params(const NetFns &f, void *n, const std::vector<std::vector<float>> &want) {
    std::vector<int> seen(want.size(), 0);
    for (Tensor ***arr : {f.kernels(n), f.biases(n)}) {
        size_t slots = *arr ? __sanitizer_get_allocated_size(*arr) / sizeof(Tensor *) : 0;
        for (size_t s = 0; s < slots; s++) {
            Tensor *t = (*arr)[s];
            if (!t) continue;
            bool hit = false;
            for (size_t p = 0; p < want.size(); p++) {
                if (want[p].size() != t->num_elements()) continue;
                bool same = true;
                for (size_t i = 0; i < want[p].size() && same; i++) same = fbits(t->access_blob((uint32_t) i)) == fbits(want[p][i]);
                if (same) seen[p] = 1, hit = true;
            }
            if (!hit) throw Mismatch(cat("after loading, ", arr == f.kernels(n) ? "kernel" : "bias", " slot ", s, " (", t->num_elements(),
                                         " elements) holds none of the model's parameters"));
        }
    }
    for (size_t p = 0; p < want.size(); p++)
        if (!seen[p]) throw Mismatch(cat("after loading, parameter ", p, " (", want[p].size(), " elements) is in no kernel or bias slot"));
}

static void live(const NetFns &f, const J &c, const std::vector<RunIo> &io, const std::vector<std::vector<float>> &params) {
    std::map<long long, void *> inst;
    const J &hist = c["hist"];
    bool destroy = !opt("NET_KEEP");
    const std::string &weights = c["weights"].str();
    for (size_t i = 0; i < hist.size(); i++) {
        current_step = (int) i;
        const std::string &op = hist[i]["op"].str(); long long k = hist[i]["i"].n();
        if (op == "create") inst[k] = f.create();
        else if (op == "load") {
            int32_t rc = read_binary_weights(weights.c_str(), f.kernels(inst[k]), f.biases(inst[k]));
            if (rc != 0) throw Mismatch(cat("the weights file written by the importer is refused by the reader (", rc, ")"));
            if (opt("NET_PARAMS")) check_params(f, inst[k], params);
        } else if (op == "run") {
            const RunIo &r = io[i];
            Tensor *in = make_tensor(r.ish), *out = make_tensor(r.osh);
            fill(in, r.in);
            for (uint32_t e = 0; e < out->num_elements(); e++) out->access_blob(e) = -7777.25f;
            f.run(inst[k], in, out);
            if (!opt("NET_NOVALUES"))
                for (uint32_t e = 0; e < out->num_elements(); e++)
                    if (!r.out->matches(e, out->access_blob(e)))
                        throw Mismatch(cat("output element ", e, " is ", out->access_blob(e), ", the model gives ", r.out->dbl(e)));
            for (size_t e = 0; e < r.in.size(); e++)
                if (fbits(in->access_blob((uint32_t) e)) != fbits(r.in[e])) throw Mismatch(cat("the run changed its input: element ", e, " became ", in->access_blob((uint32_t) e)));
            delete in; delete out;
        } else if (op == "destroy") { if (destroy) f.destroy(inst[k]); inst.erase(k); }
        else if (op != "main" && op != "import") throw std::runtime_error("history step " + op);   // stand-alone programs are run elsewhere
    }
}

static void net_one(const J &c) {
    NetFns f = net_fns(c["so"].str(), c["fn"].str());
    const J &hist = c["hist"], &log = c["log"];
    std::vector<RunIo> io(hist.size());
    for (size_t i = 0; i < hist.size(); i++)
        if (hist[i]["op"].str() == "run") {
            Val in(log[i][(size_t) 0]["inp"]); io[i].out = std::make_shared<Val>(log[i][(size_t) 0]["out"]);
            io[i].ish = in.sh; io[i].osh = io[i].out->sh;
            for (size_t e = 0; e < in.d.size(); e++) io[i].in.push_back(in.flt(e));
        }
    std::vector<std::vector<float>> params;
    for (size_t p = 0; p < c["params"].size(); p++) {
        Val v(c["params"][p]); std::vector<float> d;
        for (size_t e = 0; e < v.d.size(); e++) d.push_back(v.flt(e));
        params.push_back(d);
    }
    live(f, c, io, params);
    if (opt("NET_LEAKS")) {
        size_t before = __sanitizer_get_current_allocated_bytes();
        live(f, c, io, params);
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (after != before) throw Mismatch(cat("the history leaves ", (long long) after - (long long) before, " bytes behind"));
    }
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;      // net FILE [JOBS]
    return run_all(argv[2], argc > 3 ? atoi(argv[3]) : 8, [](const J &c) { net_one(c); }, [](const J &) { return false; });
}
