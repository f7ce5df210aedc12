// Saved tensors: every small shape, storage kind and value pattern is written with the real writer and read back.
#include "mc.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/tensor_from_xavier.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "N03";
    i.rule = "case = (storage kind, shape, rotation of the value alphabet); the tensor is saved (file, stream with and without a shape header, "
             "and two tensors in one stream) and read back into every kind that can hold it; the oracle is the list of values written; state = "
             "distinct file content; transition = one save or load";
    i.bounds_quick = {"shapes 1..4 x 1..3 x 1..3; 8 larger ones (up to 70000 elements)", "kinds full, 16-bit, 8-bit (bias 4, 8, 14), pixel, uniform, identity, function, transposed view", "7 value alphabets, all rotations",
                      "all 256 pixel levels, all 8-bit codes per bias, all 65536 16-bit codes in one tensor each"};
    i.bounds_thorough = {"shapes 1..7 x 1..5 x 1..4, otherwise as quick"};
    return i;
}

static std::vector<float> values(const T &t) {
    std::vector<float> v;
    for (size_t ch = 0; ch < t->channelCount(); ch++)
        for (size_t r = 0; r < t->rowCount(); r++)
            for (size_t col = 0; col < t->columnCount(); col++) v.push_back(t->getValue(r, col, ch));
    return v;
}

static std::string brief(const std::vector<float> &v) {
    return v.size() <= 40 ? mc::show(v) : mc::show(std::vector<float>(v.begin(), v.begin() + 40)) + " and more";
}

static bool same(const std::vector<float> &a, const std::vector<float> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (memcmp(&a[i], &b[i], 4) != 0 && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}

static std::string shape(const T &t) {
    return std::to_string(t->rowCount()) + "x" + std::to_string(t->columnCount()) + "x" + std::to_string(t->channelCount());
}

static std::string f() { return "t.bin"; }

static void put(const T &t, bool header = true) {
    ofstream s("t.bin", ios::binary | ios::trunc);
    t->save(s, header);
    s.close();
}

// reads with the constructor of one kind
static T load_kind(int kind) {
    switch (kind) {
        case 0: return make_shared<FullTensor>(f());
        case 1: return make_shared<HalfTensor>(f());
        case 2: return make_shared<QuarterTensor>(f(), 4);
        case 3: return make_shared<QuarterTensor>(f(), 8);
        case 4: return make_shared<QuarterTensor>(f(), 14);
        default: return make_shared<PixelTensor>(f());
    }
}

static const char *names[] = {"full", "half", "quarter4", "quarter8", "quarter14", "pixel", "uniform", "identity", "function", "transposed"};

static T build(int kind, size_t rows, size_t cols, size_t chs, const std::vector<float> &alpha, size_t rot) {
    std::vector<std::vector<std::vector<float>>> v(chs);
    size_t k = rot;
    for (auto &ch: v) {
        ch.resize(rows);
        for (auto &r: ch) for (size_t i = 0; i < cols; i++) r.push_back(alpha[k++ % alpha.size()]);
    }
    auto full = make_shared<FullTensor>(v);
    switch (kind) {
        case 0: return full;
        case 1: return make_shared<HalfTensor>(full);
        case 2: return make_shared<QuarterTensor>(full, 4);
        case 3: return make_shared<QuarterTensor>(full, 8);
        case 4: return make_shared<QuarterTensor>(full, 14);
        case 5: return make_shared<PixelTensor>(full);
        case 6: return make_shared<UniformTensor>(rows, cols, chs, alpha[rot % alpha.size()]);
        case 7: return make_shared<IdentityTensor>(rows, cols, chs);
        case 8: return make_shared<TensorFromFunction>([alpha, rot](size_t r, size_t c, size_t ch) { return alpha[(rot + r * 3 + c * 5 + ch * 7) % alpha.size()]; }, rows, cols, chs);
        default: return make_shared<TransposeTensorView>(full);
    }
}

static void roundtrip(mc::Ctx &c, int kind, const T &t) {
    auto want = values(t);
    put(t);
    std::string content = mc::slurp("t.bin");
    c.state(mc::hash(content));
    c.check(content.size() == 24 + 4 * want.size(), "size", "file has " + std::to_string(content.size()) + " bytes");
    T full = make_shared<FullTensor>(f());
    c.transition(2);
    c.check(shape(full) == shape(t), "shape", shape(t) + " read back as " + shape(full));
    c.check(same(values(full), want), "values", brief(want) + " read back as " + brief(values(full)));
    if (kind <= 5) {
        T own = load_kind(kind);
        c.transition();
        c.check(shape(own) == shape(t), "own-shape", shape(t) + " read back as " + shape(own));
        c.check(same(values(own), want), "own-values", brief(want) + " read back as " + brief(values(own)));
    }
    // save to a path
    c.check(t->save(std::string("u.bin")), "save-path", "save() reported failure");
    c.check(mc::slurp("u.bin") == content, "save-path", "save to a path differs from save to a stream");
    // loadTensor
    T l32 = loadTensor(f(), 32);
    c.check(same(values(l32), want), "load32", brief(want) + " loaded as " + brief(values(l32)));
    T l16 = loadTensor(f(), 16), h = make_shared<HalfTensor>(full);
    c.check(same(values(l16), values(h)) && shape(l16) == shape(t), "load16", brief(want) + " loaded as " + brief(values(l16)));
    bool finite = true;
    float big = 0;
    for (float x: want) {
        finite = finite && std::isfinite(x);
        big = std::max(big, std::fabs(x));
    }
    if (finite && big < 1900) {
        T l8 = loadTensor(f(), 8);
        auto got = values(l8);
        c.check(shape(l8) == shape(t), "load8", "shape");
        for (size_t i = 0; i < got.size() && i < want.size(); i++) {
            // one eight-bit step of a range fitted to the tensor
            float step = std::max(std::max(std::fabs(want[i]) / 6, big / 512), 4e-5f);
            c.check(std::fabs(got[i] - want[i]) <= step && !(got[i] * want[i] < 0), "load8", brief(want) + " loaded as " + brief(got));
        }
    }
    if (kind <= 5) {
        // behind other bytes, with its shape, into the kind it came from
        {
            ofstream s("v.bin", ios::binary | ios::trunc);
            s << "x";
            t->save(s);
            t->save(s);
        }
        ifstream s("v.bin", ios::binary);
        s.get();
        for (int i = 0; i < 2; i++) {
            T y = kind == 1 ? T(make_shared<HalfTensor>(s)) : kind >= 2 && kind <= 4 ? T(make_shared<QuarterTensor>(s, kind == 2 ? 4 : kind == 3 ? 8 : 14))
                  : kind == 5 ? T(make_shared<PixelTensor>(s)) : T(make_shared<FullTensor>(s));
            c.check(shape(y) == shape(t) && same(values(y), want), "stream-own", brief(want) + " read back as " + brief(values(y)));
        }
        c.check(s && s.peek() == EOF, "stream-consumed", "the reader did not consume exactly what the writer wrote");
        c.transition(4);
    }
    // without header, behind other bytes
    {
        ofstream s("t.bin", ios::binary | ios::trunc);
        s << "xyz";
        t->save(s, false);
        t->save(s, true);
        t->save(s, false);
    }
    {
        ifstream s("t.bin", ios::binary);
        char b[3];
        s.read(b, 3);
        T a = make_shared<FullTensor>(s, t->rowCount(), t->columnCount(), t->channelCount());
        T m = make_shared<FullTensor>(s);
        // the last one is read into the kind it came from
        size_t R = t->rowCount(), C = t->columnCount(), H = t->channelCount();
        T z = kind >= 2 && kind <= 4 ? T(make_shared<QuarterTensor>(s, kind == 2 ? 4 : kind == 3 ? 8 : 14, R, C, H))
              : kind == 5 ? T(make_shared<PixelTensor>(s, R, C, H)) : T(make_shared<FullTensor>(s, R, C, H));
        c.check(shape(z) == shape(t), "headerless-own-shape", shape(t) + " read back as " + shape(z));
        c.check(same(values(a), want) && shape(a) == shape(t), "headerless", brief(want) + " read back as " + brief(values(a)));
        c.check(same(values(m), want) && shape(m) == shape(t), "sequence", brief(want) + " read back as " + brief(values(m)));
        c.check(same(values(z), want), "sequence-last", brief(want) + " read back as " + brief(values(z)));
        c.check(s && s.peek() == EOF, "consumed", "the reader did not consume exactly what the writer wrote");
    }
    c.transition(8);
    c.trace();
}

static void explore(mc::Ctx &c) {
    const float inf = INFINITY;
    std::vector<std::vector<float>> alphas = {
            {0.f, 1.f, -1.f, 0.5f, 2.f},
            {-0.f, 1e-3f, -1e-3f, 100.f, -100.f, 0.1f},
            {1.17549435e-38f, 3.40282347e38f, -3.40282347e38f, 1e-45f},
            {inf, -inf, NAN, 1.f},
            {1.f / 3, 2.f / 3, 1.f / 7, -5.f / 7, 0.999999f, 1.000001f},
            {0.f, 1 / 255.f, 2 / 255.f, 127 / 255.f, 254 / 255.f, 1.f},
            {1500.f, -1400.f, 3.f, -0.25f}};
    int R = c.thorough ? 7 : 4, C = c.thorough ? 5 : 3, H = c.thorough ? 4 : 3;
    for (int rows = 1; rows <= R; rows++)
        for (int cols = 1; cols <= C; cols++)
            for (int chs = 1; chs <= H; chs++)
                for (int kind = 0; kind < 10; kind++)
                    for (size_t a = 0; a < alphas.size(); a++)
                        for (size_t rot = 0; rot < alphas[a].size(); rot++) {
                            if (!c.take()) continue;
                            c.desc(std::string(names[kind]) + " " + std::to_string(rows) + "x" + std::to_string(cols) + "x" + std::to_string(chs) + " alphabet " +
                                   std::to_string(a) + " rotation " + std::to_string(rot));
                            if (kind == 5 && a == 3) continue;   // a pixel cannot hold NaN
                            c.run([&] {
                                T t = build(kind, rows, cols, chs, alphas[a], rot);
                                roundtrip(c, kind, t);
                            });
                        }
    std::vector<std::array<int, 3>> large = {{1, 300, 1}, {300, 1, 1}, {1, 1, 20}, {40, 33, 2}, {17, 5, 9}, {1, 9000, 1}};
    for (auto &s: large)
        for (int kind = 0; kind < 10; kind++)
            for (size_t a = 0; a < alphas.size(); a++) {
                if (kind == 5 && a == 3) continue;
                if (s[1] > 1000 && a % 3) continue;
                if (!c.begin(std::string(names[kind]) + " " + std::to_string(s[0]) + "x" + std::to_string(s[1]) + "x" + std::to_string(s[2]) + " alphabet " + std::to_string(a))) continue;
                c.run([&] { roundtrip(c, kind, build(kind, s[0], s[1], s[2], alphas[a], 1)); });
            }
    for (int kind: {0, 5})
        if (c.begin(std::string(names[kind]) + " of 70000 columns")) c.run([&] { roundtrip(c, kind, build(kind, 1, 70000, 1, alphas[0], 0)); });
    // a file that is not there or ends too early is refused
    auto refused = [&](int kind, const std::string &what) {
        for (int k: {kind, 6, 7, 8}) {
            bool threw = false;
            try {
                if (k < 6) load_kind(k);
                else loadTensor(f(), k == 6 ? 32 : k == 7 ? 16 : 8);
            } catch (const std::exception &) { threw = true; }
            c.transition();
            c.check(threw, "refused", what + " is loaded by " + (k < 6 ? names[k] : k == 6 ? "loadTensor 32" : k == 7 ? "loadTensor 16" : "loadTensor 8"));
        }
    };
    for (int kind = 0; kind < 6; kind++) {
        if (c.begin(std::string(names[kind]) + " from a missing file")) c.run([&] {
            std::filesystem::remove(f());
            refused(kind, "a missing file");
        });
        for (int rows = 1; rows <= 3; rows++)
            for (int cols = 1; cols <= 3; cols++)
                for (int chs = 1; chs <= 2; chs++) {
                    size_t all = 24 + 4 * rows * cols * chs;
                    for (size_t n = 0; n < all; n++) {
                        if (!c.begin(std::string(names[kind]) + " " + std::to_string(rows) + "x" + std::to_string(cols) + "x" + std::to_string(chs) + " from the first " + std::to_string(n) + " of " + std::to_string(all) + " bytes")) continue;
                        c.run([&] {
                            put(build(kind, rows, cols, chs, alphas[0], 0));
                            std::filesystem::resize_file(f(), n);
                            refused(kind, "a truncated file");
                            c.state(mc::mix(n * 1000 + rows * 100 + cols * 10 + chs));
                            c.trace();
                        });
                    }
                }
    }
    auto range = [&](const char *name, int kind, size_t n, std::function<float(size_t)> v) {
        if (!c.begin(std::string("every value of ") + name)) return;
        c.run([&] {
            std::vector<std::vector<std::vector<float>>> x(1);
            for (size_t i = 0; i < n; i += 256) {
                std::vector<float> r;
                for (size_t j = 0; j < 256; j++) r.push_back(v(i + j));
                x[0].push_back(r);
            }
            T full = make_shared<FullTensor>(x);
            T t = kind == 1 ? T(make_shared<HalfTensor>(full)) : kind == 5 ? T(make_shared<PixelTensor>(full)) : T(make_shared<QuarterTensor>(full, kind == 2 ? 4 : kind == 3 ? 8 : 14));
            auto a = values(full), b = values(t);
            for (size_t i = 0; i < a.size(); i++)
                if (memcmp(&a[i], &b[i], 4) != 0 && !(std::isnan(a[i]) && std::isnan(b[i])))
                    c.fail_key("kept @ " + c.desc() + " " + mc::show(a[i]), "a representable value " + mc::show(a[i]) + " is stored as " + mc::show(b[i]));
            put(t);
            T back = load_kind(kind);
            c.transition(2);
            c.state(mc::hash(mc::slurp("t.bin")));
            auto g = values(back);
            for (size_t i = 0; i < b.size(); i++)
                if (memcmp(&g[i], &b[i], 4) != 0 && !(std::isnan(g[i]) && std::isnan(b[i])))
                    c.fail_key("reload @ " + c.desc() + " " + mc::show(b[i]), mc::show(b[i]) + " reloads as " + mc::show(g[i]));
            c.trace();
        });
    };
    range("pixel", 5, 256, [](size_t i) { return i / 255.f; });
    range("half", 1, 65536, [](size_t i) { return halfToFloat((half) i); });
    for (int k = 2; k <= 4; k++) {
        int bias = k == 2 ? 4 : k == 3 ? 8 : 14;
        range(names[k], k, 256, [bias](size_t i) {
            if ((i & 0x7f) > 0x78 && i != 0xff) i = 0x77;   // codes beyond infinity are never produced
            if (i == 0x80) i = 0;                           // reserved tiny value
            return quarterToFloat((quarter) i, bias);
        });
    }
}

}

MC_MAIN
