// Loss functions and their derivatives on grids of truths and predictions.
// MC_FLAGS: -O2
#include "ml_ref.hpp"

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "M02";
    i.rule = "every pair of a truth and a prediction (all floats with the given number of bits), and every pair of small vectors, through error, loss and derivative of every loss, compared with the "
             "documented formula in double precision, and the derivative with the difference quotient of the loss; every value finite. state = a block of pairs / a pair of vectors";
    i.bounds_quick = {"cross entropies: 31 truths in 0..1 x all predictions in 0..1 with 17 bits", "others: 25 truths x all finite predictions up to 1e18 with 16 bits", "vectors: up to 2x2x1 of 4 truths and 6 predictions"};
    i.bounds_thorough = {"cross entropies: 31 truths in 0..1 x all predictions in 0..1 with 24 bits", "others: 25 truths x all finite predictions up to 1e18 with 22 bits", "vectors: up to 2x2x1 of 4 truths and 7 predictions"};
    i.assumptions = {"predictions of cross entropies are probabilities", "categorical cross entropy has the documented shortcut prediction - truth as derivative", "single precision tolerance"};
    i.case_timeout = 120;
    return i;
}

struct Fn {
    const char *name;
    std::shared_ptr<LossFunction> f;
    bool probability;
    bool mean;
    std::function<double(double, double)> error, loss, slope;    // of (truth, prediction); loss: contribution of one element
};

static std::vector<Fn> functions() {
    std::vector<Fn> v;
    auto sign = [](double d) { return d > 0 ? 1.0 : d < 0 ? -1.0 : 0.0; };
    v.push_back({"mse", std::make_shared<MeanSquaredErrorLossFunction>(), false, true, [](double t, double p) { return p - t; }, [](double t, double p) { return (p - t) * (p - t); },
                 [](double t, double p) { return 2 * (p - t); }});
    v.push_back({"mae", std::make_shared<MeanAbsoluteErrorLossFunction>(), false, true, [](double t, double p) { return std::fabs(p - t); }, [](double t, double p) { return std::fabs(p - t); },
                 [sign](double t, double p) { return sign(p - t); }});
    auto huber = [](double t, double p) { double d = std::fabs(p - t); return d < 1 ? 0.5 * d * d : d - 0.5; };
    v.push_back({"smae", std::make_shared<SmoothMeanAbsoluteErrorLossFunction>(), false, true, huber, huber,
                 [sign](double t, double p) { double d = p - t; return std::fabs(d) < 1 ? d : sign(d); }});
    auto clip = [](double x) { return std::min(1.0, std::max(1e-8, x)); };
    auto bce = [clip](double t, double p) { return -t * std::log(clip(p)) - (1 - t) * std::log(clip(1 - p)); };
    v.push_back({"bce", std::make_shared<BinaryCrossEntropyLossFunction>(), true, false, bce, bce, [clip](double t, double p) { return -t / clip(p) + (1 - t) / clip(1 - p); }});
    auto cce = [clip](double t, double p) { return -t * std::log(clip(p)); };
    v.push_back({"cce", std::make_shared<CategoricalCrossEntropyLossFunction>(), true, false, cce, cce, [](double t, double p) { return p - t; }});
    return v;
}

class Row : public BaseTensor {
public:
    std::vector<float> v;

    size_t rowCount() override { return 1; }
    size_t columnCount() override { return v.size(); }
    size_t channelCount() override { return 1; }
    float getValue(size_t, size_t c, size_t) override { return v[c]; }
    void printMaterializationPlan() override {}
};

static bool near(double got, double want, double a, double r) { return std::fabs(got - want) <= a + r * std::fabs(want); }

// of one element, with the tolerance that single precision leaves
static void element(mc::Ctx &c, const Fn &f, float t, float p, float e, float d) {
    double scale = std::max(std::fabs((double) t), std::fabs((double) p));
    double we = f.error(t, p), wd = f.slope(t, p);
    // rounding of p - t or 1 - p
    double ea = f.probability ? 2e-7 + 1.2e-7 * (1 - t) / std::max(1e-8, 1.0 - p) : 2e-7 * scale;
    double da = f.probability && f.name[0] == 'b' ? 1e-6 + 1.2e-7 * (1 - t) / std::max(1e-8, 1.0 - p) / std::max(1e-8, 1.0 - p) : 3e-7 * std::max(scale, 1.0);
    if (!std::isfinite(e)) c.fail_stop("error-finite", "of " + mc::show(t) + " and " + mc::show(p) + " is " + mc::show(e));
    if (!std::isfinite(d)) c.fail_stop("derivative-finite", "of " + mc::show(t) + " and " + mc::show(p) + " is " + mc::show(d));
    if (!near(e, we, ea, 3e-6)) c.fail_stop("error", "of " + mc::show(t) + " and " + mc::show(p) + " is " + mc::show(e) + ", expected " + mc::show(we));
    // next to the kinks either side is right
    if (f.name[0] == 'm' && f.name[1] == 'a' && t == p) { if (std::fabs(d) > 1) c.fail_stop("derivative", mc::show(d)); return; }
    if (!near(d, wd, da, 3e-6)) c.fail_stop("derivative", "of " + mc::show(t) + " and " + mc::show(p) + " is " + mc::show(d) + ", expected " + mc::show(wd));
}

static void grid(mc::Ctx &c) {
    auto fs = functions();
    for (auto &f: fs) {
        std::vector<float> truths;
        if (f.probability) {
            for (int k = 0; k <= 16; k++) truths.push_back(k / 16.0f);
            for (float x: {1e-8f, 1e-7f, 1e-4f, 0.001f, 0.01f, 0.1f, 1.0f / 3, 0.9f, 0.99f, 0.999f, 0.9999f, 0.99999994f, 1e-30f, 1e-45f}) truths.push_back(x);
        } else {
            truths = {0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 0.1f, 2.f, -3.f, 1e-3f, 1e-10f, 1e-30f, 1e-45f, 100.f, -255.f, 1e4f, 1e6f, -1e6f, 1e10f, -1e10f, 1e15f, 1e18f, -1e18f, 0.999f, 1.001f};
        }
        const int keep = f.probability ? (c.thorough ? 24 : 17) : (c.thorough ? 22 : 16);
        const uint64_t total = 1ull << keep, block = 2048;
        for (uint64_t b = 0; b < total / block; b++) {
            auto p = std::make_shared<Row>();
            for (uint64_t k = 0; k < block; k++) {
                uint32_t bits = (uint32_t) ((b * block + k) << (32 - keep));
                float x;
                memcpy(&x, &bits, 4);
                if (std::isnan(x)) continue;
                if (f.probability ? !(x >= 0 && x <= 1) : !(std::fabs(x) <= 1e18f)) continue;
                p->v.push_back(x);
            }
            if (f.probability && b == 0) for (float x: {1.0f, 0.99999994f, 0.9999999f, 1e-45f, 1e-40f, 1e-38f, 9.9e-9f, 1e-8f, 1.01e-8f}) p->v.push_back(x);
            if (p->v.empty()) continue;
            for (float t: truths) {
                if (!c.begin(std::string(f.name) + " of truth " + mc::show(t) + " and predictions from " + mc::show(p->v.front()) + " to " + mc::show(p->v.back()))) continue;
                c.run([&] {
                    auto truth = std::make_shared<Row>();
                    truth->v.assign(p->v.size(), t);
                    T a = truth, q = p;
                    T e = f.f->compute_error(a, q);
                    T d = f.f->compute_loss_derivative(e, a, q);
                    for (size_t k = 0; k < p->v.size(); k++) element(c, f, t, p->v[k], e->getValue(0, k, 0), d->getValue(0, k, 0));
                    c.transition(2 * p->v.size());
                    c.state(mc::hash(std::string(f.name)) ^ mc::mix(b) ^ mc::hash(std::vector<float>{t}));
                    c.trace();
                });
            }
        }
    }
}

static T tensor(const std::vector<float> &v, size_t rows, size_t cols, size_t chs) {
    std::vector<std::vector<std::vector<float>>> d(chs, std::vector<std::vector<float>>(rows, std::vector<float>(cols)));
    size_t n = 0;
    for (auto &a: d) for (auto &b: a) for (auto &e: b) e = v[n++];
    return std::make_shared<FullTensor>(d);
}

static void vectors(mc::Ctx &c) {
    auto fs = functions();
    struct S { size_t r, c, h; };
    for (auto &f: fs)
        for (S s: {S{1, 1, 1}, S{1, 2, 1}, S{2, 1, 1}, S{1, 1, 2}, S{1, 3, 1}, S{3, 1, 1}, S{2, 2, 1}, S{2, 1, 2}}) {
            size_t n = s.r * s.c * s.h;
            std::vector<float> ts = f.probability ? std::vector<float>{0.f, 1.f, 0.5f, 0.25f} : std::vector<float>{0.f, 1.f, -2.5f, 0.25f};
            std::vector<float> ps = f.probability ? std::vector<float>{0.f, 1.f, 0.5f, 0.125f, 0.75f, 1e-9f, 0.999f} : std::vector<float>{0.f, 1.f, -2.f, 0.75f, 3.5f, 0.3f, 100.f};
            if (!c.thorough && n == 4) ps.resize(4);
            else if (!c.thorough) ps.resize(6);
            mc::sequences((int) ts.size(), (int) n, [&](const std::vector<int> &ti) {
                mc::sequences((int) ps.size(), (int) n, [&](const std::vector<int> &pi) {
                    if (!c.take()) return;
                    std::vector<float> t, p;
                    for (int k: ti) t.push_back(ts[k]);
                    for (int k: pi) p.push_back(ps[k]);
                    c.desc(std::string(f.name) + " of " + std::to_string(s.r) + "x" + std::to_string(s.c) + "x" + std::to_string(s.h) + " truth " + mc::show(t) + " prediction " + mc::show(p));
                    c.run([&] {
                        T a = tensor(t, s.r, s.c, s.h), q = tensor(p, s.r, s.c, s.h);
                        T e = f.f->compute_error(a, q);
                        float loss = f.f->compute_loss(e);
                        double want = 0;
                        for (size_t k = 0; k < n; k++) want += f.loss(t[k], p[k]);
                        if (f.mean) want /= (double) n;
                        c.check(near(loss, want, 1e-5, 1e-5), "loss", mc::show(loss) + ", expected " + mc::show(want));
                        T d = f.f->compute_loss_derivative(e, a, q);
                        c.check(d->rowCount() == s.r && d->columnCount() == s.c && d->channelCount() == s.h, "shape", "of the derivative");
                        size_t k = 0;
                        for (size_t h = 0; h < s.h; h++)
                            for (size_t r = 0; r < s.r; r++)
                                for (size_t col = 0; col < s.c; col++, k++) element(c, f, t[k], p[k], e->getValue(r, col, h), d->getValue(r, col, h));
                        // the error is what the derivative is taken of, whether or not it was materialized
                        T m = std::make_shared<FullTensor>(e);
                        T dm = f.f->compute_loss_derivative(m, a, q);
                        k = 0;
                        for (size_t h = 0; h < s.h; h++)
                            for (size_t r = 0; r < s.r; r++)
                                for (size_t col = 0; col < s.c; col++, k++) element(c, f, t[k], p[k], m->getValue(r, col, h), dm->getValue(r, col, h));
                        c.check(near(f.f->compute_loss(m), loss, 1e-6, 1e-6), "loss-materialized", "");
                        c.transition(3);
                        c.state(mc::hash(t) ^ mc::mix(mc::hash(p)) ^ mc::hash(std::string(f.name) + char(s.r * 16 + s.c * 4 + s.h)));
                        c.trace();
                    });
                });
            });
        }
}

static void explore(mc::Ctx &c) {
    vectors(c);
    grid(c);
}

}

MC_MAIN
