// Dropout: what is dropped, what is learned, and what is passed on when predicting.
#include "ml_ref.hpp"

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M10";
    i.rule = "dropout layer: every rate x shape x assignment of values, many steps of training one after another, with predictions in between: each step passes on every element scaled or not at all, "
             "the error comes back through the same elements with the same scale, the share that is kept fits the rate, and predicting passes on the mean of what training passes on. "
             "Networks: every rate x width x place of the layer, built with the builder or loaded from a save, batches one after another: a weight changes exactly when its neuron was kept. "
             "state = (rate, mask seen), transition = step of training";
    i.bounds_quick = {"8 rates x 9 shapes x all assignments of 4 values up to 4 elements, 256 steps", "networks: 8 rates x widths 1..8 x 2 places x built and loaded, 64 batches"};
    i.bounds_thorough = {"8 rates x 9 shapes x all assignments of 4 values up to 6 elements, 1024 steps", "networks: 8 rates x widths 1..16 x 2 places x built and loaded, 256 batches"};
    i.assumptions = {"the share that is kept is judged with a tolerance of 0.06 over at least 1024 draws; the draws are a fixed sequence"};
    return i;
}

static const std::vector<float> rates = {0, 0.1f, 0.25f, 0.5f, 0.625f, 0.75f, 0.9f, 1};

static bool near(double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

static void layers(mc::Ctx &c) {
    std::vector<Shape> shapes = {{1, 1, 1}, {1, 2, 1}, {2, 1, 1}, {1, 1, 2}, {1, 3, 1}, {2, 2, 1}, {1, 2, 2}, {2, 1, 2}, {2, 3, 1}};
    std::vector<float> al = {-1, 0, 0.5f, 3};
    size_t most = c.thorough ? 6 : 4;
    int steps = c.thorough ? 1024 : 256;
    for (float rate: rates)
        for (auto &sh: shapes) {
            size_t n = sh.n();
            mc::sequences((int) al.size(), (int) std::min(n, most), [&](const std::vector<int> &v) {
                if (!c.take()) return;
                std::vector<float> x(n);
                for (size_t i = 0; i < n; i++) x[i] = al[v[i % v.size()]];
                c.desc("dropout " + mc::show(rate) + " of " + sh.str() + " " + mc::show(x));
                c.run([&] {
                    DropoutLayer layer("d", sh.vec(), rate);
                    auto in = tensor_of(x, sh);
                    std::vector<float> err(n);
                    for (size_t i = 0; i < n; i++) err[i] = (float) i + 1;
                    double scale = -1;
                    long kept = 0, seen = 0, all = 0;
                    std::vector<double> error_scale;
                    for (int s = 0; s < steps; s++) {
                        auto out = layer.forward({in}, true);
                        c.check(out->rowCount() == sh.r && out->columnCount() == sh.c && out->channelCount() == sh.h, "shape", "training changes the shape");
                        auto y = values(out);
                        if (s % 3 == 0) layer.forward({in}, false);
                        auto y2 = values(out);
                        for (size_t i = 0; i < n; i++) if (y[i] != y2[i]) c.fail("unsteady", "an output changes after it was passed on");
                        auto back = layer.backward(tensor_of(err, sh));
                        c.check(back.size() == 1, "backward", "not one error");
                        auto b = values(back[0]);
                        uint64_t mask = 0;
                        for (size_t i = 0; i < n; i++) {
                            bool k = b[i] != 0;
                            mask = mask * 2 + k;
                            all++;
                            kept += k;
                            if (k && scale < 0) scale = b[i] / err[i];
                            if (!std::isfinite(y[i]) || !std::isfinite(b[i])) c.fail("not finite", "step " + std::to_string(s));
                            else if (!near(b[i], k ? scale * err[i] : 0)) c.fail("error", "step " + std::to_string(s) + ": an error comes back scaled by " + mc::show(b[i] / err[i]) + ", another by " + mc::show(scale));
                            else if (!near(y[i], k ? scale * x[i] : 0)) c.fail("output", "step " + std::to_string(s) + ": " + mc::show(x[i]) + " is passed on as " + mc::show(y[i]) + ", its error " + (k ? "scaled by " + mc::show(scale) : "not at all"));
                        }
                        c.state(mc::hash(&mask, 8, (uint64_t) (rate * 1000) * 64 + n));
                        c.transition();
                    }
                    c.trace();
                    double share = (double) kept / all;
                    if (all >= 1024 || rate == 0 || rate == 1)
                        if (std::abs(share - (1 - rate)) > (rate == 0 || rate == 1 ? 0 : 0.06)) c.fail("rate", "keeps a share of " + mc::show(share));
                    auto p = layer.forward({in}, false);
                    c.check(p->rowCount() == sh.r && p->columnCount() == sh.c && p->channelCount() == sh.h, "shape", "predicting changes the shape");
                    auto y = values(p);
                    for (size_t i = 0; i < n; i++) {
                        if (!std::isfinite(y[i])) c.fail("not finite", "predicting");
                        else if (rate < 1 && !near(y[i], x[i] * scale * (1.0 - rate))) c.fail("mean", "predicting passes " + mc::show(x[i]) + " on as " + mc::show(y[i]) + ", training on average as " + mc::show(x[i] * scale * (1.0 - rate)));
                        else if (rate == 1 && y[i] != 0 && y[i] != x[i]) c.fail("mean", "predicting passes " + mc::show(x[i]) + " on as " + mc::show(y[i]));
                    }
                });
            });
        }
    for (float bad: {-0.001f, -1.0f, 1.001f, 2.0f}) {
        if (!c.begin("dropout " + mc::show(bad))) continue;
        c.run([&] {
            bool refused = false;
            try { DropoutLayer layer("d", {1, 2, 1}, bad); }
            catch (const std::exception &) { refused = true; }
            c.check(refused, "rate", "is not refused");
        });
    }
}

static void networks(mc::Ctx &c) {
    int widest = c.thorough ? 16 : 8, batches = c.thorough ? 256 : 64;
    for (float rate: rates)
        for (int w = 1; w <= widest; w++)
            for (int place = 0; place < 2; place++)
                for (int loaded = 0; loaded < 2; loaded++) {
                    if (!c.begin(std::string(loaded ? "loaded" : "built") + " network, dropout " + mc::show(rate) + " of width " + std::to_string(w) + (place ? ", second of two" : ""))) continue;
                    c.run([&] {
                        auto layer = [](size_t n, std::vector<int> parents, bool out) {
                            V v;
                            v.n = n;
                            v.parents = std::move(parents);
                            v.output = out;
                            v.l2 = 0;
                            v.in = {1, 1, 1};
                            return v;
                        };
                        V d;
                        d.type = LayerType::dropout;
                        d.dropout = rate;
                        Net n;
                        n.v.push_back(layer(place ? 1 : w, {}, false));
                        if (place) n.v.push_back(layer(w, {0}, false));
                        d.parents = {place};
                        n.v.push_back(d);
                        n.v.push_back(layer(1, {place + 1}, true));
                        n.lr = n.blr = 1.0f / 64;
                        auto repo = c.fresh("repo");
                        auto m = n.build("m", repo);
                        m->setSilentMode(true);
                        if (loaded) {
                            m->saveWithOverwrite();
                            m = loadNeuralNetworkForTraining("m", repo);
                            m->setSilentMode(true);
                        }
                        auto given = tensor_of({1}, {1, 1, 1});
                        auto know = [&] {
                            m->saveKnowledge("k", true);
                            std::vector<std::pair<std::string, std::vector<float>>> r;
                            for (auto &x: read_knowledge(repo + "/m/k")) r.push_back(x);
                            return r;      // in order of the vertices (fewer than ten)
                        };
                        auto before = know();
                        if ((int) before.size() != 2 + place) {
                            c.fail("harness", "layers " + std::to_string(before.size()));
                            return;
                        }
                        long kept = 0, all = 0;
                        for (int b = 0; b < batches; b++) {
                            // an expectation that is always off
                            float p = m->predict(std::vector<T>{given})[0]->getValue(0);
                            Record r;
                            r.given = {{1}};
                            r.expected = {{p > 0 ? -2.0f : 2.0f}};
                            auto ds = dataset(n, {r});
                            m->setExitStrategy(std::make_shared<Epochs>(1));
                            m->train(ds, 1, TrainingRetentionPolicy::last);
                            auto after = know();
                            auto &w0 = before[place].second, &w1 = after[place].second, &o0 = before[place + 1].second, &o1 = after[place + 1].second;
                            uint64_t mask = 0;
                            int changed = 0;
                            for (int j = 0; j < w; j++) {
                                bool hid = w0[j] != w1[j], out = o0[j] != o1[j];
                                mask = mask * 2 + out;
                                if (hid != out) c.fail("mask", "batch " + std::to_string(b + 1) + ": neuron " + std::to_string(j) + " is " + (hid ? "" : "not ") + "learned before the layer and " + (out ? "" : "not ") + "after it");
                                all++;
                                kept += out;
                                changed += out;
                            }
                            if (place && changed == 0 && before[0].second != after[0].second) c.fail("mask", "a layer learns behind a layer that drops everything");
                            c.state(mc::hash(&mask, 8, (uint64_t) (rate * 1000) * 64 + w));
                            c.transition();
                            before = after;
                            // start again before values run away
                            bool far = false;
                            for (auto &x: after) for (float f: x.second) far = far || !(std::abs(f) < 4) || std::abs(f) < 1e-3;
                            if (far) {
                                auto fresh = n.build("m", repo);
                                fresh->saveKnowledge("start", true);
                                m->loadKnowledge("start");
                                before = know();
                            }
                        }
                        c.trace();
                        double share = (double) kept / all, tolerance = rate == 0 || rate == 1 ? 0 : all >= 1024 ? 0.06 : all >= 256 ? 0.1 : all >= 128 ? 0.16 : 0.25;
                        if (std::abs(share - (1 - rate)) > tolerance) c.fail("rate", "keeps a share of " + mc::show(share) + " of the neurons");
                    });
                }
}

static void explore(mc::Ctx &c) {
    layers(c);
    networks(c);
}

}

MC_MAIN
