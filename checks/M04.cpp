// Optimizers: every update is the recurrence of its optimizer, for each registered layer on its own.
// MC_FLAGS: -O2
#include "ml_ref.hpp"

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "M04";
    i.rule = "all sequences of operations (next epoch; a gradient for the weights of either of two layers, for the bias of either of two layers) on every optimizer, each result compared with the recurrence "
             "in double precision, each learning rate with its own; state = (optimizer, parameters, rates, epoch), transition = operation";
    i.bounds_quick = {"5 optimizers x 2 learning rates x all sequences of up to 5 of 13 operations"};
    i.bounds_thorough = {"5 optimizers x 2 learning rates x all sequences of up to 6 of 13 operations"};
    i.assumptions = {"Adam is the variant of the code, without bias correction of the moments", "the decaying rate is that of the code: from the average moments, within 1e-5 and 0.1, at most once an epoch from the second on",
                     "gradients of 0 or between 0.25 and 8, single precision tolerance"};
    return i;
}

struct Slot {
    int id = -1;
    bool bias = false;
    std::vector<double> p, m, v;       // parameters and moments
    bool seen = false;
    T tensor;
};

struct Ref {
    OptimizerType type;
    double rate[2];                    // weights, bias
    int step = 0, last[2] = {1, 1};
    Slot slots[4];

    bool demon() const { return type == adam_with_decaying_momentum || type == sgdm_with_decaying_momentum; }

    bool adam() const { return type == OptimizerType::adam || type == adam_with_decaying_momentum; }

    static double mean(const std::vector<double> &x) {
        double s = 0;
        for (double d: x) s += d;
        return s / (double) x.size();
    }

    void adjust(bool bias) {
        double m = 0, v = 0;
        int n = 0;
        for (auto &s: slots)
            if (s.bias == bias && s.seen) {
                m += mean(s.m);
                v += mean(s.v);
                n++;
            }
        m /= n;
        v /= n;
        if (!adam()) v = m * m;
        auto between = [](double x) { return std::min(0.1, std::max(1e-5, x)); };
        double mh = m * between(1 / (1 - std::pow(0.9, step))), vh = v / (1 - std::pow(0.999, step));
        rate[bias] = between(mh / (std::sqrt(vh) + 1e-8));
    }

    void apply(int k, const std::vector<float> &g) {
        Slot &s = slots[k];
        if (type == OptimizerType::sgd) {
            for (size_t i = 0; i < g.size(); i++) s.p[i] -= rate[s.bias] * g[i];
            return;
        }
        if (!s.seen) {
            s.seen = true;
            s.m.assign(g.size(), 0);
            s.v.assign(g.size(), 0);
        }
        bool due = demon() && step > last[s.bias];
        if (due) last[s.bias] = step;
        if (adam()) {
            if (due) adjust(s.bias);
            for (size_t i = 0; i < g.size(); i++) {
                s.m[i] = 0.9 * s.m[i] + 0.1 * g[i];
                s.v[i] = 0.999 * s.v[i] + 0.001 * g[i] * g[i];
                s.p[i] -= rate[s.bias] * s.m[i] / (std::sqrt(s.v[i]) + 1e-8);
            }
        } else {
            for (size_t i = 0; i < g.size(); i++) {
                s.m[i] = 0.9 * s.m[i] + rate[s.bias] * g[i];
                s.p[i] -= s.m[i];
            }
            if (due) adjust(s.bias);
        }
    }
};

static const std::vector<std::vector<float>> &gradients() {
    static std::vector<std::vector<float>> g{{1.f, -2.f}, {0.f, 0.f}, {-0.25f, 8.f}};
    return g;
}

// 0: next epoch; otherwise slot and gradient
static std::string name_of(int op) {
    if (op == 0) return "epoch";
    static const char *names[] = {"weights-1", "weights-2", "bias-1", "bias-2"};
    return std::string(names[(op - 1) / 3]) + mc::show(gradients()[(op - 1) % 3]);
}

static bool near(double got, double want, double scale) { return std::fabs(got - want) <= 1e-9 + 5e-6 * std::fabs(want) + 1e-4 * scale; }

static void one(mc::Ctx &c, OptimizerType type, float lr, float blr, const std::vector<int> &ops) {
    auto o = createOptimizer(type, lr, blr);
    Ref ref;
    ref.type = type;
    ref.rate[0] = lr;
    ref.rate[1] = blr;
    std::vector<std::vector<size_t>> shapes{{1, 2, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}};
    // layers register weights and bias in turn
    for (int k: {0, 2, 1, 3}) {
        ref.slots[k].bias = k >= 2;
        ref.slots[k].id = k >= 2 ? o->registerForBiasChanges() : o->registerForWeightChanges();
        ref.slots[k].p = {0.5 + k, -0.25};
        std::vector<std::vector<std::vector<float>>> d(shapes[k][2], std::vector<std::vector<float>>(shapes[k][0], std::vector<float>(shapes[k][1])));
        size_t n = 0;
        for (auto &a: d) for (auto &b: a) for (auto &e: b) e = (float) ref.slots[k].p[n++];
        ref.slots[k].tensor = std::make_shared<FullTensor>(d);
    }
    for (int op: ops) {
        c.transition();
        if (op == 0) {
            o->update_time_step();
            ref.step++;
        } else {
            int k = (op - 1) / 3;
            Slot &s = ref.slots[k];
            auto &g = gradients()[(op - 1) % 3];
            std::vector<std::vector<std::vector<float>>> d(shapes[k][2], std::vector<std::vector<float>>(shapes[k][0], std::vector<float>(shapes[k][1])));
            size_t n = 0;
            for (auto &a: d) for (auto &b: a) for (auto &e: b) e = g[n++];
            T gt = std::make_shared<FullTensor>(d);
            std::vector<double> was = s.p;
            T r = s.bias ? o->calculateBiasChange(s.id, s.tensor, gt) : o->calculateWeightsChange(s.id, s.tensor, gt);
            r = std::make_shared<FullTensor>(r);
            ref.apply(k, g);
            if (r->getShape() != shapes[k]) c.fail_stop("shape", "after " + name_of(op));
            auto got = net::values(r);
            for (size_t i = 0; i < got.size(); i++) {
                if (!near(got[i], s.p[i], std::fabs(s.p[i] - was[i]))) c.fail_stop("update", "after " + name_of(op) + " parameter " + std::to_string(i) + " is " + mc::show(got[i]) + ", expected " + mc::show(s.p[i]) + ", was " + mc::show(was[i]));
                s.p[i] = got[i];       // rounding does not add up
            }
            s.tensor = r;
        }
        if (!near(o->getLearningRate(), ref.rate[0], ref.rate[0])) c.fail_stop("rate", "after " + name_of(op) + " is " + mc::show(o->getLearningRate()) + ", expected " + mc::show(ref.rate[0]));
        if (!near(o->getBiasLearningRate(), ref.rate[1], ref.rate[1])) c.fail_stop("bias-rate", "after " + name_of(op) + " is " + mc::show(o->getBiasLearningRate()) + ", expected " + mc::show(ref.rate[1]));
        std::vector<float> st{(float) type, (float) ref.step, o->getLearningRate(), o->getBiasLearningRate()};
        for (auto &s: ref.slots) for (double p: s.p) st.push_back((float) p);
        c.state(mc::hash(st));
    }
    c.trace();
}

static void explore(mc::Ctx &c) {
    const int depth = c.thorough ? 6 : 5;
    for (auto type: {OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::sgdm_with_decaying_momentum, OptimizerType::adam_with_decaying_momentum})
        for (auto lr: {std::make_pair(0.5f, 0.125f), std::make_pair(0.001f, 0.05f)})
                // every shorter sequence is a prefix of one of these
                mc::sequences(13, depth, [&](const std::vector<int> &v) {
                    if (!c.take()) return;
                    std::string d = optimizerTypeToString(type) + " " + mc::show(lr.first) + ":";
                    for (int o: v) d += " " + name_of(o);
                    c.desc(d);
                    c.run([&] { one(c, type, lr.first, lr.second, v); });
                });
    // long histories of one kind: rates over many epochs
    for (auto type: {OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::sgdm_with_decaying_momentum, OptimizerType::adam_with_decaying_momentum})
        mc::sequences(13, 3, [&](const std::vector<int> &v) {
            if (!c.take()) return;
            std::string d = optimizerTypeToString(type) + " repeated 12 times:";
            for (int o: v) d += " " + name_of(o);
            c.desc(d);
            c.run([&] {
                std::vector<int> w;
                for (int k = 0; k < 12; k++) w.insert(w.end(), v.begin(), v.end());
                one(c, type, 0.01f, 0.02f, w);
            });
        });
}

}

MC_MAIN
