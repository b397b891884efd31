// Replays file-interface behaviours (PicoFiles.tla) on the real readers and writers.
#pragma once
#include <sys/stat.h>
#include <dirent.h>
#include <jpeglib.h>
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/write_pgm.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/read_jpeg.h"

struct Scratch {
    std::string dir;
    Scratch() { char t[] = "/tmp/verif_ioXXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); dir = t; }
    ~Scratch() {
        if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
        rmdir(dir.c_str());
    }
    std::string path(const std::string &n) { return n == "." ? dir : dir + "/" + n; }
};
static std::string bytes(const J &b) { std::string r; r.reserve(b.size()); for (auto &x : b.a) r += (char) x.n(); return r; }
static void spit(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size() || fclose(f)) throw std::runtime_error("cannot write " + p); }
static std::string slurp(const std::string &p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

static int open_fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }

static void linear(const char *what, size_t i, float got, long px, long px2, double lo, double hi, double slack) {
    if (px < 0) { if (got != (float) lo) throw Mismatch(cat(what, " border value ", i, " is ", got, ", expected ", lo)); return; }
    double a = lo + px / 255.0 * (hi - lo), b = lo + px2 / 255.0 * (hi - lo);
    double t = 2e-6 * (std::fabs(lo) + std::fabs(hi)) + slack / 255.0 * (hi - lo);
    if (!(got >= a - t && got <= b + t)) throw Mismatch(cat(what, " value ", i, " is ", got, ", expected ", a, " (byte ", px, ")"));
}
static double num(const J &a, const char *f) { return std::ldexp((double) a[f].n(), (int) a["x"].n()); }

static void put_jpeg(const std::string &path, const J &a) {
    int h = (int) a["h"].n(), w = (int) a["w"].n(); std::string mode = a["mode"].str();
    FILE *f = fopen(path.c_str(), "wb"); if (!f) throw std::runtime_error("jpeg file");
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c, f);
    c.image_width = w; c.image_height = h; int n = c.input_components = mode == "grey" ? 1 : 3;
    c.in_color_space = mode == "grey" ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c);
    if (mode == "rgb") jpeg_set_colorspace(&c, JCS_RGB);
    for (int i = 0; i < n; i++) { c.comp_info[i].h_samp_factor = 1; c.comp_info[i].v_samp_factor = 1; }
    jpeg_set_quality(&c, 100, TRUE);
    if (a["prog"].b) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    std::vector<JSAMPLE> row(w * n); int bw = (w + 7) / 8;
    for (int y = 0; y < h; y++) {
        for (int x = 0; x < w; x++) { const J &p = a["px"][(y / 8) * bw + x / 8]; for (int k = 0; k < n; k++) row[x * n + k] = (JSAMPLE) p[k].n(); }
        JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f);
}

struct IoSession {
    Scratch sc;
    std::map<std::string, Tensor *> ts;
    std::map<std::string, std::string> shadow;     // last known contents, absent = unspecified

    ~IoSession() { for (auto &t : ts) delete t.second; }
    std::string raw(Tensor *t) { std::string r; for (uint32_t i = 0; i < t->num_elements(); i++) { float f = t->access_blob(i); r.append((char *) &f, 4); } return r; }
    Tensor *T(const std::string &id) { auto i = ts.find(id); if (i == ts.end()) throw std::runtime_error("no tensor " + id); return i->second; }

    // exact-size heap arrays of tensor pointers, as a generated network holds them
    struct Arrays { Tensor **k, **b; size_t nk, nb; Arrays(IoSession &s, const J &a) {
            nk = a["ks"].size(); nb = a["bs"].size();
            k = new Tensor *[nk]; b = new Tensor *[nb];
            for (size_t i = 0; i < nk; i++) k[i] = s.T(a["ks"][i].str());
            for (size_t i = 0; i < nb; i++) b[i] = s.T(a["bs"][i].str());
        } ~Arrays() { delete[] k; delete[] b; } };

    int load(const J &a, const std::string &what, const std::string &path) {
        if (what == "weights") {
            Arrays r(*this, a); Tensor **k = r.k, **b = r.b;
            int rc = read_binary_weights(path.c_str(), &r.k, &r.b);
            if (r.k != k || r.b != b) throw Mismatch("the reader replaced the tensor arrays");
            for (size_t i = 0; i < r.nk; i++) if (r.k[i] != T(a["ks"][i].str())) throw Mismatch("the reader replaced a kernel tensor");
            for (size_t i = 0; i < r.nb; i++) if (r.b[i] != T(a["bs"][i].str())) throw Mismatch("the reader replaced a bias tensor");
            return rc;
        }
        Tensor *t = T(a["id"].str()), *t0 = t;
        int rc = what == "refin" ? read_binary_reference_input_data(path.c_str(), &t) : read_binary_reference_output_data(path.c_str(), &t);
        if (t != t0) throw Mismatch("the reader replaced the tensor");
        return rc;
    }
    void check_frame(const J &lg) {
        const J &w = lg["w"];
        for (auto &u : lg["u"].a) shadow.erase(u.str());
        for (auto &p : w.o) {
            std::string e = bytes(p.second), g = raw(T(p.first));
            if (e != g) { size_t i = 0; while (i < e.size() && e[i] == g[i]) i++; throw Mismatch(cat("tensor ", p.first, " value ", i / 4, " differs from the file's")); }
            shadow[p.first] = e;
        }
        for (auto &p : shadow) if (raw(T(p.first)) != p.second) throw Mismatch(cat("tensor ", p.first, " changed though it is not a destination"));
    }

    void apply(const J &a, const J &lg) {
        const std::string &op = a["op"].str(); const J &o = lg["o"]; const std::string &ok = o["k"].str();
        int fds = open_fds();
        auto bad = [&](const std::string &m) { throw Mismatch(op + " " + m); };
        if (op == "put" || op == "putraw") spit(sc.path(a["file"].str()), bytes(a["b"]));
        else if (op == "putpgm" || op == "putval" || op == "putmeans") spit(sc.path(a["file"].str()), bytes(o["b"]));
        else if (op == "putjpeg") put_jpeg(sc.path(a["file"].str()), a);
        else if (op == "rm") unlink(sc.path(a["file"].str()).c_str());
        else if (op == "tnew") {
            const std::string &id = a["id"].str(); if (ts.count(id)) delete ts[id];
            Tensor *t = ts[id] = make_tensor(a["sh"].u32()); std::string b = bytes(a["b"]);
            for (uint32_t i = 0; i < t->num_elements(); i++) { float f; memcpy(&f, &b[4 * i], 4); t->access_blob(i) = f; }
            shadow[id] = b;
        } else if (op == "weights" || op == "refin" || op == "refout") {
            int rc = load(a, op, sc.path(a["file"].str()));
            if (o["ok"].b && rc != 0) bad(cat("returned ", rc, " for a well-formed file"));
            if (!o["ok"].b && rc == 0) bad("reported success for a file that must be refused");
        } else if (op == "cuts") {
            std::string p = sc.path(a["file"].str()), all = slurp(p), q = sc.path("cut");
            for (size_t n = 0; n < all.size(); n++) {
                spit(q, all.substr(0, n));
                if (load(a, a["what"].str(), q) == 0) bad(cat("accepted the file cut off after ", n, " of ", all.size(), " bytes"));
            }
        } else if (op == "mnimg") {
            fp_t **im = nullptr; double lo = num(a, "lo"), hi = num(a, "hi");
            uint32_t n = read_mnist_images(sc.path(a["file"].str()).c_str(), &im, (uint32_t) a["req"].n(), (uint8_t) a["pad"].n(), (float) lo, (float) hi);
            if (n != (uint32_t) o["n"].n()) bad(cat("returned ", n, ", expected ", o["n"].n()));
            for (uint32_t i = 0; i < n; i++) {
                const J &px = o["imgs"][i]; if (im[i] == nullptr) bad("image missing");
                for (size_t k = 0; k < px.size(); k++) linear("mnist", k, im[i][k], px[k].n(), px[k].n(), lo, hi, 0);
                free(im[i]);
            }
            free(im);
        } else if (op == "mnlab") {
            uint8_t *l = nullptr;
            uint32_t n = read_mnist_labels(sc.path(a["file"].str()).c_str(), &l, (uint32_t) a["req"].n());
            if (n != (uint32_t) o["n"].n()) bad(cat("returned ", n, ", expected ", o["n"].n()));
            for (uint32_t i = 0; i < n; i++) if (l[i] != o["ls"][i].n()) bad(cat("label ", i, " is ", (int) l[i], ", expected ", o["ls"][i].n()));
            free(l);
        } else if (op == "endian") {
            std::string b = bytes(a["b"]), e = bytes(o["b"]); uint32_t v; memcpy(&v, b.data(), 4); uint32_t r = change_endianess(v), x; memcpy(&x, e.data(), 4);
            if (r != x) bad(cat("gave ", r, " for ", v));
        } else if (op == "wpgm") {
            uint16_t h = (uint16_t) a["h"].n(), w = (uint16_t) a["w"].n(); std::vector<float> v;
            for (auto &x : a["v"].a) v.push_back((float) std::ldexp((double) x.n(), (int) a["x"].n()));
            std::string p = sc.path(a["file"].str());
            std::vector<float> before = v;
            int rc = write_pgm(v.data(), h, w, p.c_str());
            if (memcmp(before.data(), v.data(), 4 * v.size())) bad("changed the image");
            if (ok == "ret") { if (rc == 0) bad("reported success for a path that cannot be opened"); return; }
            if (rc != 0) bad(cat("returned ", rc));
            check_pgm(slurp(p), o, h, w);
        } else if (op == "rpgm") {
            fp_t *im = nullptr; uint16_t h = 0, w = 0; double lo = num(a, "lo"), hi = num(a, "hi");
            int rc = read_pgm(&im, sc.path(a["file"].str()).c_str(), (uint8_t) a["pad"].n(), (float) lo, (float) hi, &h, &w);
            if (ok == "ret") { if (rc == 0) bad("reported success for a file that cannot be opened"); }
            else {
                if (rc != 0) bad(cat("returned ", rc));
                if (h != o["h"].n() || w != o["w"].n()) bad(cat("size ", h, "x", w));
                const J &px = o["px"];
                for (size_t k = 0; k < px.size(); k++) linear("pgm", k, im[k], px[k][(size_t) 0].n(), px[k][(size_t) 1].n(), lo, hi, 0);
                free(im);
            }
        } else if (op == "wfloat") {
            uint16_t h = (uint16_t) a["h"].n(), w = (uint16_t) a["w"].n(); std::string b = bytes(a["b"]); std::vector<float> v(b.size() / 4); memcpy(v.data(), b.data(), b.size());
            std::string p = sc.path(a["file"].str()); int rc = write_float(v.data(), h, w, p.c_str());
            if (ok == "ret") { if (rc == 0) bad("reported success for a path that cannot be opened"); }
            else {
                if (rc != 0) bad(cat("returned ", rc));
                std::string s = slurp(p); const char *q = s.c_str(); char *e;
                if (s.compare(0, 3, "FF\n") != 0) bad("wrong magic line");
                q += 3; long hh = strtol(q, &e, 10), ww = strtol(e, &e, 10); if (hh != h || ww != w) bad(cat("stored size ", hh, "x", ww)); q = e;
                for (size_t i = 0; i < v.size(); i++) { float f = strtof(q, &e); if (e == q || fbits(f) != fbits(v[i])) bad(cat("value ", i, " reads back as ", f, ", not ", v[i])); q = e; }
                while (*q == '\n' || *q == ' ') q++;
                if (*q) bad("stored more than the image");
            }
        } else if (op == "labels") {
            char **l = nullptr; int n = read_imagenet_labels(sc.path(a["file"].str()).c_str(), &l, (uint32_t) a["n"].n());
            if (n != o["n"].n()) bad(cat("returned ", n, ", expected ", o["n"].n()));
            for (int i = 0; i < n; i++) { if (std::string(l[i]) != bytes(o["ls"][i])) bad(cat("label ", i, " is '", l[i], "'")); free(l[i]); }
            free(l);
        } else if (op == "vlabels") {
            uint32_t *l = nullptr; int n = read_imagenet_validation_labels(sc.path(a["file"].str()).c_str(), &l, (uint32_t) a["n"].n());
            if (ok == "ret") { if (n != 0) bad("missing file not reported"); }
            else {
                if (n == 0) bad("returned 0");
                for (size_t i = 0; i < o["vs"].size(); i++) if (l[i + 1] != o["vs"][i].n()) bad(cat("class of image ", i + 1, " is ", l[i + 1], ", expected ", o["vs"][i].n()));
                free(l);
            }
        } else if (op == "means") {
            fp_t *m = new fp_t[3]{-1, -2, -3}; int rc = read_means(sc.path(a["file"].str()).c_str(), m);
            if (ok == "ret") { if (rc == 0) bad("missing file or magic line not reported"); }
            else {
                if (rc != 0) bad(cat("returned ", rc));
                std::string b = bytes(o["b"]);
                if (memcmp(m, b.data(), 12)) bad(cat("read ", m[0], " ", m[1], " ", m[2]));
            }
            delete[] m;
        } else if (op == "rjpeg") {
            fp_t **im = nullptr; uint16_t h = 0, w = 0; double lo = num(a, "lo"), hi = num(a, "hi");
            int rc = read_jpeg(&im, sc.path(a["file"].str()).c_str(), (float) lo, (float) hi, &h, &w);
            if (ok == "ret") { if (rc == 0) bad("reported success for a missing file"); }
            else {
                if (rc != 0) bad(cat("returned ", rc));
                if (h != o["h"].n() || w != o["w"].n()) bad(cat("size ", h, "x", w));
                static const char *nm[] = {"blue", "green", "red"};
                for (int c = 0; c < 3; c++) { const J &px = o["planes"][c]; for (size_t k = 0; k < px.size(); k++) linear(nm[c], k, im[c][k], px[k].n(), px[k].n(), lo, hi, (double) o["tol"].n()); free(im[c]); }
                free(im);
            }
        } else throw std::runtime_error("unknown action " + op);
        check_frame(lg);
        if (open_fds() > fds) bad("leaves the file open");
    }
    void check_pgm(const std::string &s, const J &o, long h, long w) {
        size_t p = 0;
        auto tok = [&]() { for (;;) { while (p < s.size() && isspace((unsigned char) s[p])) p++; if (p < s.size() && s[p] == '#') { while (p < s.size() && s[p] != '\n') p++; continue; } break; }
                           std::string t; while (p < s.size() && !isspace((unsigned char) s[p])) t += s[p++]; return t; };
        if (tok() != "P5") throw Mismatch("write_pgm: wrong magic number");
        std::string tw = tok(), th = tok(), tm = tok(); p++;
        if (tw != std::to_string(w) || th != std::to_string(h) || tm != "255") throw Mismatch(cat("write_pgm: header says ", tw, "x", th, " max ", tm));
        if (s.size() - p != (size_t) (h * w)) throw Mismatch(cat("write_pgm: ", s.size() - p, " pixels, expected ", h * w));
        for (long i = 0; i < h * w; i++) { int g = (unsigned char) s[p + i]; const J &e = o["px"][i];
            if (g < e[(size_t) 0].n() || g > e[(size_t) 1].n()) throw Mismatch(cat("write_pgm: pixel ", i, " is ", g, ", expected ", e[(size_t) 0].n(), "..", e[(size_t) 1].n())); }
    }
};

static void io_one(const J &c) {
    IoSession s;
    const J &acts = c["acts"], &log = c["log"];
    for (size_t i = 0; i < acts.size(); i++) { current_step = (int) i; s.apply(acts[i], log[i]); }
}
