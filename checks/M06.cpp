// A saved network that is loaded again is the same network.
#include "ml_ref.hpp"

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M06";
    i.rule = "every network of the bounded grammar is built, trained for an epoch so that its knowledge is its own, and saved; it is loaded from disk and compared: "
             "predictions bit for bit and in the same order of outputs, number of parameters and of trainable layers, what it saves in turn byte for byte, and what it "
             "learns from further training (against a freshly built network that is given the same knowledge) bit for bit. state = (network, stage), transition = save, load or training";
    i.bounds_quick = {"every graph of up to 4 vertices (input, full layer, concatenation of 2 or 3 earlier vertices in any order)",
                      "one to three vertices in a chain: full, convolution, flatten, normalize, dropout with each option, precision (8, 16, 32 bits), activation, loss, optimizer and learning rate"};
    i.bounds_thorough = {"every graph of up to 5 vertices, pairs of options"};
    i.assumptions = {"the state of an optimizer is not part of a model, so further training starts from a fresh optimizer on both sides"};
    return i;
}

static std::vector<std::vector<float>> outputs(const std::shared_ptr<NeuralNetworkForTraining> &nn, const std::shared_ptr<Fixed> &d) {
    std::vector<std::vector<float>> r;
    for (auto &p: d->pairs) for (auto &t: nn->predict(p->getGiven())) r.push_back(values(t));
    return r;
}

static std::string dump(const std::vector<std::vector<float>> &x) {
    std::string s;
    for (auto &v: x) s += mc::show(v) + " ";
    return s;
}

static bool same(const std::vector<std::vector<float>> &a, const std::vector<std::vector<float>> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t j = 0; j < a[i].size(); j++) if (memcmp(&a[i][j], &b[i][j], sizeof(float)) && !(std::isnan(a[i][j]) && std::isnan(b[i][j]))) return false;
    }
    return true;
}

static void check_net(mc::Ctx &c, const Net &n) {
    std::string d = n.str() + " " + optimizerTypeToString(n.opt) + " rates " + mc::show(n.lr) + " " + mc::show(n.blr);
    if (!c.begin(d)) return;
    c.run([&] {
        std::string repo = c.fresh("repo");
        auto data = dataset(n, records(n, 2));
        auto train = [&](const std::shared_ptr<NeuralNetworkForTraining> &nn, size_t epochs) {
            nn->setSilentMode(true);
            nn->setExitStrategy(std::make_shared<Epochs>(epochs));
            nn->train(data, 2, TrainingRetentionPolicy::last);
            c.transition();
        };
        auto nn = n.build("m", repo);
        train(nn, 1);
        auto before = outputs(nn, data);
        nn->saveWithOverwrite();
        c.transition();
        c.check(same(outputs(nn, data), before), "saving-changes-predictions", "");
        auto loaded = loadNeuralNetworkForTraining("m", repo);
        c.transition();
        loaded->setSilentMode(true);
        auto after = outputs(loaded, data);
        c.check(same(after, before), "predictions", dump(after) + ", before " + dump(before));
        c.check(loaded->get_total_parameters() == nn->get_total_parameters(), "parameters", std::to_string(loaded->get_total_parameters()));
        c.check(loaded->get_total_trainable_layers() == nn->get_total_trainable_layers(), "layers", std::to_string(loaded->get_total_trainable_layers()));
        std::string other = repo + "/other";
        loaded->saveAs(other, true);
        c.transition();
        auto files = mc::tree(repo + "/m"), again = mc::tree(other);
        c.check(files == again, "saved-files", mc::show(again));
        for (auto &f: files) {
            auto a = mc::slurp(repo + "/m/" + f), b = mc::slurp(other + "/" + f);
            c.check(a == b, "saved-bytes", f + (f.find(".config") != std::string::npos ? ":\n" + a + "\nbecame\n" + b : ""));
        }
        auto fresh = n.build("m", repo);
        fresh->loadKnowledge("default");
        c.check(same(outputs(fresh, data), before), "knowledge", dump(outputs(fresh, data)) + ", before " + dump(before));
        train(fresh, 2);
        train(loaded, 2);
        auto x = outputs(fresh, data), y = outputs(loaded, data);
        c.check(same(x, y), "training", dump(y) + ", not reloaded " + dump(x));
        c.state(mc::hash(d));
        c.trace();
    });
}

static void explore(mc::Ctx &c) {
    for (size_t n = 1; n <= (c.thorough ? 5 : 4); n++) each_graph(n, [&](Net g) {
        g.lr = 0.125f;
        g.blr = 0.0625f;
        check_net(c, g);
    });
    std::vector<ActivationType> acts = {relu, tanhDefault, sigmoid, leaky, softmax, sigmoidApprox, tanhApprox, linear};
    std::vector<OptimizerType> opts = {sgd, adam, sgdm, adam_with_decaying_momentum, sgdm_with_decaying_momentum};
    // every option of a vertex, one (thorough: two) at a time away from its default
    using Change = std::function<void(V &)>;
    std::vector<Change> changes = {[](V &) {}};
    for (auto a: acts) changes.push_back([a](V &v) { v.act = a; });
    for (int b: {8, 16}) changes.push_back([b](V &v) { v.bits = b; });
    changes.push_back([](V &v) { v.bias = true; });
    changes.push_back([](V &v) { v.norm = true; });
    for (int l: {0, 1}) changes.push_back([l](V &v) { v.l2 = l; });
    for (float s: {0.5f, 0.1f, 1.0f / 3}) changes.push_back([s](V &v) { v.l2 = 1; v.strength = s; });
    for (float s: {0.01f, 1.0f / 3, 5.0f}) changes.push_back([s](V &v) { v.clip = s; });
    for (int m: {0, 1}) changes.push_back([m](V &v) { v.materialized = m; });
    auto valid = [](const Net &n) {
        for (size_t i = 0; i < n.v.size(); i++) {
            Shape s = n.in_shape((int) i);
            if (n.v[i].type == LayerType::convolution2dValid && (n.v[i].kernel > s.r || n.v[i].kernel > s.c)) return false;
        }
        return true;
    };
    auto vertices = [&](bool first, bool last) {
        std::vector<V> r;
        V f;
        f.n = 3;
        f.output = last;
        r.push_back(f);
        V k = f;
        k.type = LayerType::convolution2dValid;
        k.filters = 2;
        r.push_back(k);
        if (!last) for (auto t: {LayerType::flatten, LayerType::normalize}) {
            V x;
            x.type = t;
            r.push_back(x);
        }
        if (!last) for (float rate: {0.0f, 0.25f}) {
            V x;
            x.type = LayerType::dropout;
            x.dropout = rate;
            r.push_back(x);
        }
        (void) first;
        return r;
    };
    std::vector<Net> chains;
    for (auto &s: {Shape{3, 3, 1}, Shape{3, 3, 2}, Shape{1, 4, 1}}) {
        for (auto &a: vertices(true, true)) { Net n; n.v = {a}; n.v[0].in = s; chains.push_back(n); }
        for (auto &a: vertices(true, false)) for (auto &b: vertices(false, true)) {
            Net n;
            n.v = {a, b};
            n.v[0].in = s;
            n.v[1].parents = {0};
            chains.push_back(n);
        }
        for (auto &a: vertices(true, false)) for (auto &b: vertices(false, false)) for (auto &e: vertices(false, true)) {
            Net n;
            n.v = {a, b, e};
            n.v[0].in = s;
            n.v[1].parents = {0};
            n.v[2].parents = {1};
            chains.push_back(n);
        }
    }
    auto layer = [](const V &v) { return v.type == LayerType::full || v.type == LayerType::convolution2dValid; };
    for (auto &n: chains) {
        if (!valid(n)) continue;
        for (size_t i = 0; i < n.v.size(); i++) {
            if (!layer(n.v[i])) { if (i == 0) check_net(c, n); continue; }
            for (auto &ch: changes) {
                Net m = n;
                ch(m.v[i]);
                m.lr = 0.125f;
                m.blr = 0.0625f;
                check_net(c, m);
                if (c.thorough) for (auto &ch2: changes) for (size_t j = 0; j < n.v.size(); j++) if (layer(n.v[j])) {
                    Net q = m;
                    ch2(q.v[j]);
                    check_net(c, q);
                }
            }
        }
        if (n.v.size() > 2) continue;
        for (auto o: opts) for (float lr: {0.001f, 0.0007f, 0.00003f, 1.0f / 3}) for (float blr: {0.0001f, 0.0f, 1.0f / 7}) {
            Net m = n;
            m.opt = o; m.lr = lr; m.blr = blr;
            check_net(c, m);
        }
        for (auto l: {mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy}) {
            Net m = n;
            m.loss = l;
            m.v.back().act = l == categoricalCrossEntropy ? softmax : sigmoid;
            m.lr = 0.125f;
            check_net(c, m);
        }
    }
}

}

MC_MAIN
