// Activation functions and their derivatives on every float.
// MC_FLAGS: -O2
#include "ml_ref.hpp"

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "M01";
    i.rule = "every finite float (thorough: all of them; quick: every sign, exponent and upper 14 bits of the fraction) through every activation and its derivative, compared with the formula in double "
             "precision, plus range, monotonicity between neighbours; softmax: every vector of a length from a list of values, in every shape; state = 64k floats of one function / one vector";
    i.bounds_quick = {"2^23 floats x 7 element-wise activations x value and derivative", "softmax: all vectors of 1..3 of 15 values and of 4 of 7 values"};
    i.bounds_thorough = {"2^32 floats x 7 element-wise activations x value and derivative", "softmax: all vectors of 1..4 of 15 values and of 5 of 7 values"};
    i.assumptions = {"NaN and infinite inputs are left out", "softmax has no derivative of its own: with its loss the whole gradient is the difference (checked by M03)"};
    i.case_timeout = 120;
    return i;
}

struct Fn {
    const char *name;
    std::shared_ptr<ActivationFunction> f;
    std::function<double(double)> value, slope;
    double lo, hi;          // range
    double abs_value, rel_value, abs_slope;
    bool tail;              // values near zero are compared relatively
};

static double sig(double x) { return 1.0 / (1.0 + std::exp(-x)); }

static std::vector<Fn> functions() {
    std::vector<Fn> v;
    const double inf = INFINITY;
    v.push_back({"relu", std::make_shared<ReLUActivationFunction>(), [](double x) { return x > 0 ? x : 0; }, [](double x) { return x > 0 ? 1.0 : 0.0; }, 0, inf, 0, 0, 0, false});
    v.push_back({"leaky", std::make_shared<LeakyReLUActivationFunction>(), [](double x) { return x < 0 ? 0.01 * x : x; }, [](double x) { return x < 0 ? 0.01 : 1.0; }, -inf, inf, 2e-45, 3e-7, 1e-8, false});
    v.push_back({"linear", std::make_shared<LinearActivationFunction>(), [](double x) { return x; }, [](double) { return 1.0; }, -inf, inf, 0, 0, 0, false});
    v.push_back({"sigmoid", std::make_shared<SigmoidActivationFunction>(), sig, [](double x) { double s = sig(x); return s * (1 - s); }, 0, 1, 2e-38, 2e-6, 1.5e-7, true});
    v.push_back({"sigmoid-approx", std::make_shared<SigmoidApproximationActivationFunction>(), [](double x) { return 0.5 * (x / (1 + std::fabs(x)) + 1); },
                 [](double x) { double d = 1 + std::fabs(x); return 0.5 / (d * d); }, 0, 1, 2e-7, 0, 3e-7, false});
    v.push_back({"tanh", std::make_shared<TanhActivationFunction>(), [](double x) { return std::tanh(x); }, [](double x) { double t = std::tanh(x); return 1 - t * t; }, -1, 1, 2e-45, 5e-7, 4e-7, false});
    v.push_back({"tanh-approx", std::make_shared<TanhApproximationActivationFunction>(), [](double x) { return std::tanh(x); }, [](double x) { double t = std::tanh(x); return 1 - t * t; }, -1, 1, 3e-7, 0, 6e-7, false});
    return v;
}

// a tensor over floats made from their order; values are read only
class Floats : public BaseTensor {
public:
    std::vector<float> v;
    size_t cols = 256;

    size_t rowCount() override { return v.size() / cols; }
    size_t columnCount() override { return cols; }
    size_t channelCount() override { return 1; }
    float getValue(size_t r, size_t c, size_t) override { return v[r * cols + c]; }
    void printMaterializationPlan() override {}
};

// the n-th float in increasing order, of 2^32
static float nth(uint32_t n) {
    uint32_t b = n & 0x80000000u ? n & 0x7fffffffu : ~n;
    float f;
    memcpy(&f, &b, 4);
    return f;
}

static bool near(double got, double want, double a, double r) {
    return std::fabs(got - want) <= a + r * std::fabs(want);
}

static void elementwise(mc::Ctx &c) {
    auto fs = functions();
    const int keep = c.thorough ? 32 : 23;
    const uint64_t step = 1ull << (32 - keep), total = 1ull << keep, block = 65536;
    for (auto &fn: fs)
        for (uint64_t b = 0; b < total / block; b++) {
            if (!c.take()) continue;
            float first = nth((uint32_t) (b * block * step)), last = nth((uint32_t) (((b + 1) * block - 1) * step));
            c.desc(std::string(fn.name) + " floats from " + mc::show(first) + " to " + mc::show(last));
            c.run([&] {
                auto x = std::make_shared<Floats>();
                x->v.reserve(block);
                for (uint64_t k = 0; k < block; k++) {
                    float f = nth((uint32_t) ((b * block + k) * step));
                    x->v.push_back(std::isfinite(f) ? f : 1.0f);
                }
                T y = fn.f->activate(x), d = fn.f->derivative(x);
                c.check(y->rowCount() == x->rowCount() && y->columnCount() == x->columnCount() && y->channelCount() == 1, "shape", "value");
                c.check(d->rowCount() == x->rowCount() && d->columnCount() == x->columnCount() && d->channelCount() == 1, "shape", "derivative");
                float before = -INFINITY;
                bool ordered = std::isfinite(first) && std::isfinite(last);
                for (size_t r = 0; r < x->rowCount(); r++) {
                    for (size_t k = 0; k < x->cols; k++) {
                        float in = x->getValue(r, k, 0), v = y->getValue(r, k, 0), s = d->getValue(r, k, 0);
                        double wv = fn.value(in), ws = fn.slope(in);
                        if (!near(v, wv, fn.abs_value, fn.rel_value)) {
                            // where exp overflows in single precision the tail is zero
                            if (!(fn.tail && in < -87 && v >= 0 && v < 1e-36)) c.fail_stop("value", "of " + mc::show(in) + " is " + mc::show(v) + ", expected " + mc::show(wv));
                        }
                        if (!near(s, ws, fn.abs_slope, 1e-6)) c.fail_stop("derivative", "at " + mc::show(in) + " is " + mc::show(s) + ", expected " + mc::show(ws));
                        if (!(v >= fn.lo && v <= fn.hi)) c.fail_stop("range", "of " + mc::show(in) + " is " + mc::show(v));
                        if (ordered && v < before && !near(v, before, 2e-7, 0)) c.fail_stop("order", "the value falls to " + mc::show(v) + " from " + mc::show(before) + " at " + mc::show(in));
                        before = v;
                    }
                    c.transition(2 * x->cols);
                }
                // read again, in another order: values do not depend on what was read before
                for (size_t k = 0; k < x->cols; k += 37)
                    for (size_t r = 0; r < x->rowCount(); r += 31) {
                        float v = y->getValue(r, k, 0);
                        double w = fn.value(x->getValue(r, k, 0));
                        if (!near(v, w, fn.abs_value, fn.rel_value) && !(fn.tail && v < 1e-36)) c.fail_stop("read-again", mc::show(v) + ", expected " + mc::show(w));
                    }
                c.state(mc::mix(b * 16 + (&fn - fs.data())));
                c.trace();
            });
        }
}

static void softmax(mc::Ctx &c) {
    std::vector<float> all{0.f, -0.f, 1.f, -1.f, 0.5f, 1e-8f, 30.f, -30.f, 88.f, 89.f, -104.f, 1e4f, -1e4f, FLT_MAX, -FLT_MAX};
    std::vector<float> few{0.f, 1.f, -1.f, 20.f, -20.f, 1000.f, -1000.f};
    SoftmaxActivationFunction f;
    auto one = [&](const std::vector<float> &v, size_t rows, size_t cols, size_t chs) {
        if (!c.begin("softmax " + std::to_string(rows) + "x" + std::to_string(cols) + "x" + std::to_string(chs) + " " + mc::show(v))) return;
        c.run([&] {
            size_t n = 0;
            std::vector<std::vector<std::vector<float>>> d(chs, std::vector<std::vector<float>>(rows, std::vector<float>(cols)));
            for (auto &a: d) for (auto &b: a) for (auto &e: b) e = v[n++];
            T t = std::make_shared<FullTensor>(d);
            double top = -INFINITY;
            for (float e: v) top = std::max(top, (double) e);
            double sum = 0;
            for (float e: v) sum += std::exp(e - top);
            T y = f.activate(t);
            c.check(y->rowCount() == rows && y->columnCount() == cols && y->channelCount() == chs, "shape", "");
            std::vector<float> got;
            for (size_t h = 0; h < chs; h++) for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < cols; k++) got.push_back(y->getValue(r, k, h));
            double total = 0;
            for (size_t k = 0; k < got.size(); k++) {
                double want = std::exp(v[k] - top) / sum;
                c.check(near(got[k], want, 1e-7, 1e-5), "softmax", "element " + std::to_string(k) + " is " + mc::show(got[k]) + ", expected " + mc::show(want));
                total += got[k];
                for (size_t j = 0; j < got.size(); j++) c.check(!(v[j] > v[k]) || got[j] >= got[k], "softmax-order", mc::show(got));
            }
            c.check(near(total, 1, 1e-5, 0), "softmax-sum", mc::show(total));
            c.transition();
            c.state(mc::hash(v) ^ mc::mix(rows * 64 + cols * 8 + chs));
            c.trace();
        });
    };
    auto vectors = [&](const std::vector<float> &values, int n) {
        mc::sequences((int) values.size(), n, [&](const std::vector<int> &q) {
            std::vector<float> v;
            for (int i: q) v.push_back(values[i]);
            one(v, 1, n, 1);
            if (n > 1) {
                one(v, n, 1, 1);
                one(v, 1, 1, n);
            }
            if (n == 4) {
                one(v, 2, 2, 1);
                one(v, 1, 2, 2);
                one(v, 2, 1, 2);
            }
        });
    };
    for (int n = 1; n <= (c.thorough ? 4 : 3); n++) vectors(all, n);
    vectors(few, c.thorough ? 5 : 4);
}

static void explore(mc::Ctx &c) {
    softmax(c);
    elementwise(c);
}

}

MC_MAIN
