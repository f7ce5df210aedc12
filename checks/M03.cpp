// Training moves every parameter along the gradient of the loss, for every network that the builder can express.
#include "ml_ref.hpp"

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M03";
    i.rule = "every network of the bounded grammar below is built with the library's builder, its initial knowledge is saved and read back, its predictions are "
             "compared with a reference forward pass on doubles, and it is trained for some epochs of plain gradient descent over fixed records; after it every "
             "parameter is compared with the reference: parameter - rate * mean over the batch of the gradient, the gradient taken by central differences of the "
             "reference forward pass (so it shares nothing with the library's back-propagation). state = (network, knowledge), transition = one batch applied";
    i.bounds_quick = {"one vertex: full (7 input shapes, width 1..3) and convolution (5 input shapes, 1..2 filters, kernel 1..3), 6 activations x 5 losses, bias, normalization, L2, norm clipping",
                      "two and three vertices: full, convolution, flatten, normalize, dropout 0, with 6 activations and all options of the first vertex",
                      "full layers laid out in rows and channels (4 layouts, thorough 10), as input, output, hidden and behind each kind of layer", "graphs: concatenated inputs, a vertex that feeds several, diamonds, several outputs; every graph of up to 4 vertices (input, full layer, concatenation of 2 or 3 in any order)",
                      "1..3 records in batches of 1..3, 1..2 epochs"};
    i.bounds_thorough = {"as quick, with graphs up to 5 vertices, all options on both of two vertices, and 3 sets of records each"};
    i.assumptions = {"where a vertex feeds several others, errors are averaged over them (documented in the code as the current choice); with categorical cross entropy the last activation is softmax (also documented)",
                     "networks with a pre-activation or an error within 1e-3 of a kink (or a normalization with spread below 0.02, or an error norm within 1e-3 of a clipping threshold), or a parameter beyond 100, are not compared after training"};
    return i;
}

static void check_net(mc::Ctx &c, const Net &n, size_t records_n, size_t batch, size_t epochs, int salt) {
    std::string d = n.str() + " records " + std::to_string(records_n) + " batch " + std::to_string(batch) + " epochs " + std::to_string(epochs) + " salt " + std::to_string(salt);
    if (!c.begin(d)) return;
    c.run([&] {
        std::string repo = c.fresh("repo");
        auto nn = n.build("m", repo);
        nn->setSilentMode(true);
        auto recs = records(n, records_n, salt);
        auto data = dataset(n, recs);
        nn->saveKnowledge("before", true);
        Know k0 = read_knowledge(repo + "/m/before");
        size_t want_tensors = 0, want_params = 0;
        for (size_t i = 0; i < n.v.size(); i++) {
            auto &v = n.v[i];
            size_t was = want_params;
            if (v.type == LayerType::full) { want_tensors++; want_params += n.in_shape((int) i).n() * v.n; }
            if (v.type == LayerType::convolution2dValid) { want_tensors += v.filters; want_params += v.filters * v.kernel * v.kernel * n.in_shape((int) i).h; }
            if (v.bias) { want_tensors++; want_params += n.out_shape((int) i).n(); }
            (void) was;
        }
        c.check(k0.size() == want_tensors, "knowledge-files", show(k0));
        c.check(nn->get_total_parameters() == want_params, "parameter-count", std::to_string(nn->get_total_parameters()) + ", expected " + std::to_string(want_params));
        DKnow k = widen(k0);
        auto predict_all = [&](const char *when) {
            for (size_t i = 0; i < recs.size(); i++) {
                Eval e(n, k);
                auto want = e(recs[i].given);
                if (e.smallest_std < 0.02) { c.count("forward not compared: spread near 0"); continue; }
                auto got = nn->predict(data->pairs[i]->getGiven());
                if (!c.check(got.size() == want.size(), "outputs", std::to_string(got.size()))) return;
                for (size_t o = 0; o < got.size(); o++) {
                    auto g = values(got[o]);
                    bool ok = g.size() == want[o].size() && Shape{got[o]->rowCount(), got[o]->columnCount(), got[o]->channelCount()} == n.out_shape(n.outputs()[o]);
                    for (size_t j = 0; ok && j < g.size(); j++) ok = std::fabs(g[j] - want[o][j]) <= 2e-4 * (1 + std::fabs(want[o][j]));
                    if (!ok) c.fail(std::string("prediction-") + when, "record " + std::to_string(i) + " output " + std::to_string(o) + ": " + mc::show(g) + ", expected " + mc::show(std::vector<float>(want[o].begin(), want[o].end())));
                }
            }
        };
        predict_all("before");
        c.state(mc::hash(d, 1));
        bool comparable = true, diverges = false;
        double first_loss = 0;
        for (size_t ep = 0; ep < epochs; ep++) {
            double epoch_loss = 0;
            size_t batches = 0;
            for (size_t at = 0; at < records_n; at += batch) {
                size_t m = std::min(batch, records_n - at);
                DKnow sum;
                double loss = 0;
                for (size_t i = at; i < at + m; i++) {
                    Step s = gradient(n, k, recs[i]);
                    if (s.nearest_kink < 1e-3 || s.smallest_std < 0.02 || s.clip_margin < 1e-3) comparable = false;
                    loss += s.loss / (double) m;
                    for (auto &g: s.grad) {
                        auto &t = sum[g.first];
                        t.resize(g.second.size());
                        for (size_t j = 0; j < t.size(); j++) t[j] += g.second[j] / (double) m;
                    }
                }
                for (auto &w: k) {
                    auto &v = n.v[vertex_of(w.first)];
                    for (size_t j = 0; j < w.second.size(); j++) {
                        double g = sum[w.first][j];
                        if (!is_bias(w.first) && n.l2(vertex_of(w.first))) g += (double) v.strength * w.second[j];
                        w.second[j] -= (is_bias(w.first) ? n.blr : n.lr) * g;
                        if (!(std::fabs(w.second[j]) < 100)) diverges = true;
                    }
                }
                epoch_loss += loss;
                batches++;
                c.transition();
            }
            if (ep == 0) first_loss = epoch_loss / (double) batches;
        }
        nn->setExitStrategy(std::make_shared<Epochs>(epochs));
        auto result = nn->train(data, (int) batch, TrainingRetentionPolicy::last);
        c.check(data->served == records_n * epochs, "records-visited", std::to_string(data->served));
        if (diverges) { c.count("training not compared: diverges"); return; }
        if (!comparable) { c.count("training not compared: near a kink"); return; }
        c.check(std::fabs(result->initial_train_loss - first_loss) <= 1e-3 * (1 + std::fabs(first_loss)), "reported-loss", mc::show(result->initial_train_loss) + ", expected " + mc::show(first_loss));
        nn->saveKnowledge("after", true);
        Know k1 = read_knowledge(repo + "/m/after");
        for (auto &w: k) {
            auto &got = k1[w.first];
            auto &old = k0[w.first];
            if (!c.check(got.size() == w.second.size(), "parameter-shape", w.first)) continue;
            double biggest = 0;
            for (size_t j = 0; j < got.size(); j++) biggest = std::max(biggest, std::fabs(w.second[j] - old[j]));
            for (size_t j = 0; j < got.size(); j++)
                if (!(std::fabs(got[j] - w.second[j]) <= 2e-3 * biggest + 2e-4)) {
                    c.fail("gradient", w.first + "[" + std::to_string(j) + "] moved by " + mc::show(got[j] - old[j]) + ", expected " + mc::show(w.second[j] - old[j]));
                    break;
                }
        }
        // predictions from what was learned, as it is saved
        k = widen(k1);
        predict_all("after");
        c.state(mc::hash(d, 2));
        c.trace();
        c.count("networks trained and compared");
    });
}

static std::vector<ActivationType> acts() { return {linear, relu, leaky, sigmoid, tanhDefault, tanhApprox}; }

static void explore(mc::Ctx &c) {
    auto each_batching = [&](const Net &n, bool few) {
        for (int salt = 0; salt < (c.thorough ? 3 : 1); salt++) {
            check_net(c, n, 1, 1, 1, salt);
            check_net(c, n, 3, 2, 1, salt);
            if (!few) {
                check_net(c, n, 2, 2, 1, salt);
                check_net(c, n, 2, 1, 2, salt);
            }
        }
    };
    // losses that may follow an activation
    auto losses = [](ActivationType a, size_t n) {
        std::vector<LossType> l = {mse, mae, smae};
        if (a == sigmoid) l.push_back(binaryCrossEntropy);
        if (a == softmax) l = {categoricalCrossEntropy};
        (void) n;
        return l;
    };
    auto last_acts = acts();
    last_acts.push_back(softmax);
    std::vector<Shape> full_in = {{1, 1, 1}, {1, 2, 1}, {1, 3, 1}, {2, 2, 1}, {2, 1, 2}, {1, 2, 2}, {3, 1, 1}};
    std::vector<Shape> conv_in = {{2, 2, 1}, {3, 3, 1}, {3, 2, 1}, {3, 3, 2}, {1, 1, 3}};
    auto options = [](V v, const std::function<void(const V &)> &f, bool clip = true) {
        for (int b = 0; b < 2; b++) for (int no = 0; no < 2; no++) for (int l = 0; l < 3; l++) for (int cl = 0; cl < (clip ? 3 : 1); cl++) {
            v.bias = b; v.norm = no;
            v.l2 = l == 2 ? 1 : l == 1 ? 0 : -1;
            v.strength = l == 2 ? 0.5f : 0.02f;
            v.clip = cl == 0 ? 0 : cl == 1 ? 0.05f : 5.0f;
            bool layer = v.type == LayerType::full || v.type == LayerType::convolution2dValid;
            for (int m = -1; m < (layer && l == 0 && cl == 0 ? 2 : 0); m++) {
                v.materialized = m;
                f(v);
            }
        }
    };
    // one vertex
    for (auto a: last_acts) for (size_t n = 1; n <= 3; n++) for (auto l: losses(a, n)) for (auto &s: full_in) {
        V v;
        v.in = s; v.n = n; v.act = a; v.output = true;
        options(v, [&](const V &o) {
            if (o.norm && n == 1) return;
            Net net;
            net.loss = l;
            net.v = {o};
            each_batching(net, true);
        });
    }
    for (auto a: acts()) for (size_t f = 1; f <= 2; f++) for (size_t k = 1; k <= 3; k++) for (auto l: losses(a, 1)) for (auto &s: conv_in) {
        if (k > s.r || k > s.c) continue;
        V v;
        v.type = LayerType::convolution2dValid;
        v.in = s; v.filters = f; v.kernel = k; v.act = a; v.output = true;
        options(v, [&](const V &o) {
            Net net;
            net.loss = l;
            net.v = {o};
            if (o.norm && net.out_shape(0).n() < 2) return;
            each_batching(net, true);
        });
    }
    // tails: what may come behind the first vertex
    struct Tail { std::vector<V> v; LossType loss; };
    std::vector<Tail> tails;
    auto out = [](size_t n, ActivationType a, bool bias) { V v; v.n = n; v.act = a; v.bias = bias; v.output = true; return v; };
    auto mid = [](LayerType t, size_t n = 1, ActivationType a = linear) { V v; v.type = t; v.n = n; v.act = a; return v; };
    tails.push_back({{out(2, linear, true)}, mse});
    tails.push_back({{out(1, sigmoid, false)}, binaryCrossEntropy});
    tails.push_back({{out(3, softmax, true)}, categoricalCrossEntropy});
    {
        V t = out(2, tanhDefault, true);
        t.clip = 0.1f;
        tails.push_back({{t}, mae});
        t.norm = true;
        t.n = 3;
        tails.push_back({{t}, smae});
        V m = mid(LayerType::full, 2, leaky);
        m.bias = true;
        m.clip = 0.2f;
        tails.push_back({{m, out(2, linear, false)}, mse});
        tails.push_back({{mid(LayerType::flatten), out(2, linear, false)}, mse});
        tails.push_back({{mid(LayerType::normalize), out(2, linear, false)}, mse});
        tails.push_back({{mid(LayerType::dropout), out(2, sigmoid, true)}, mse});
        V cv;
        cv.type = LayerType::convolution2dValid;
        cv.filters = 2; cv.kernel = 2; cv.act = tanhDefault; cv.output = true;
        tails.push_back({{cv}, mse});
        cv.output = false;
        cv.bias = true;
        tails.push_back({{cv, out(2, linear, true)}, mse});
        cv.kernel = 1;
        tails.push_back({{mid(LayerType::dropout), cv, out(1, linear, true)}, mse});
        cv.norm = true;
        cv.bias = false;
        tails.push_back({{mid(LayerType::normalize), cv, out(2, tanhApprox, true)}, mse});
    }
    auto with_tail = [&](const V &first, const Tail &t, bool few) {
        Net n;
        n.loss = t.loss;
        n.v = {first};
        for (auto &x: t.v) {
            V y = x;
            y.parents = {(int) n.v.size() - 1};
            n.v.push_back(y);
        }
        for (size_t i = 1; i < n.v.size(); i++) {
            Shape s = n.in_shape((int) i);
            if (n.v[i].type == LayerType::convolution2dValid && (n.v[i].kernel > s.r || n.v[i].kernel > s.c)) return;
            if (n.v[i].type == LayerType::normalize && s.n() < 2) return;
        }
        if (n.v[0].norm && n.out_shape(0).n() < 2) return;
        each_batching(n, few);
    };
    for (auto &t: tails) {
        for (auto a: acts()) {
            V v;
            v.act = a; v.n = 3;
            for (auto &s: std::vector<Shape>{{1, 2, 1}, {2, 2, 1}}) {
                v.in = s;
                options(v, [&](const V &o) { with_tail(o, t, true); });
            }
            V w;
            w.type = LayerType::convolution2dValid;
            w.act = a;
            for (auto &s: std::vector<Shape>{{3, 3, 1}, {3, 3, 2}, {2, 3, 1}})
                for (size_t f = 1; f <= 2; f++) {
                    w.in = s; w.filters = f; w.kernel = 2;
                    options(w, [&](const V &o) { with_tail(o, t, true); });
                }
        }
        for (auto ty: {LayerType::flatten, LayerType::normalize, LayerType::dropout})
            for (auto &s: std::vector<Shape>{{1, 3, 1}, {2, 2, 1}, {1, 2, 2}, {3, 3, 2}}) {
                V v;
                v.type = ty; v.in = s;
                with_tail(v, t, false);
            }
    }
    // graphs
    auto graph = [&](std::vector<V> v, LossType l) {
        Net n;
        n.loss = l;
        n.v = std::move(v);
        each_batching(n, false);
    };
    auto at = [](V v, std::vector<int> parents) { v.parents = std::move(parents); return v; };
    auto input = [](V v, Shape s) { v.in = s; return v; };
    for (auto a: acts())
        for (int opt = 0; opt < 4; opt++) {
            V h = mid(LayerType::full, 2, a);
            h.bias = opt & 1;
            if (opt & 2) h.clip = 0.1f;
            V cat = mid(LayerType::concatenate);
            V fl = mid(LayerType::flatten);
            // two and three inputs
            graph({input(fl, {1, 2, 1}), input(fl, {2, 2, 1}), at(cat, {0, 1}), at(h, {2}), at(out(2, linear, true), {3})}, mse);
            graph({input(fl, {1, 2, 1}), input(fl, {1, 1, 1}), input(fl, {1, 3, 1}), at(cat, {0, 1, 2}), at(out(2, a, true), {3})}, mse);
            graph({input(h, {1, 2, 1}), input(h, {1, 3, 1}), at(cat, {0, 1}), at(out(3, softmax, true), {2})}, categoricalCrossEntropy);
            // several outputs
            graph({input(h, {1, 2, 1}), at(out(1, linear, true), {0}), at(out(2, tanhDefault, false), {0})}, mse);
            graph({input(h, {1, 2, 1}), at(out(1, linear, true), {0}), at(out(2, tanhDefault, false), {0}), at(out(2, sigmoid, true), {0})}, smae);
            graph({input(h, {1, 2, 1}), at(h, {0}), at(out(1, linear, true), {0}), at(out(2, tanhDefault, false), {1})}, mse);
            graph({input(h, {1, 2, 1}), at(h, {0}), at(h, {1}), at(out(1, linear, true), {1}), at(out(2, tanhDefault, false), {2}), at(out(2, linear, false), {2})}, mse);
            // diamonds
            graph({input(h, {1, 2, 1}), at(h, {0}), at(h, {0}), at(cat, {1, 2}), at(out(2, linear, true), {3})}, mse);
            graph({input(h, {1, 2, 1}), at(h, {0}), at(h, {0}), at(h, {0}), at(cat, {1, 2, 3}), at(out(2, linear, true), {4})}, mse);
            graph({input(h, {1, 2, 1}), at(h, {0}), at(cat, {0, 1}), at(out(2, linear, true), {2})}, mse);
            graph({input(h, {1, 2, 1}), input(h, {1, 1, 1}), at(cat, {0, 1}), at(h, {2}), at(h, {2}), at(out(1, linear, true), {3}), at(out(2, a, false), {4})}, mse);
            // shared hidden vertex between a joined and a separate output
            graph({input(h, {1, 2, 1}), input(h, {1, 2, 1}), at(cat, {0, 1}), at(out(1, linear, true), {2}), at(out(2, tanhDefault, true), {0})}, mse);
        }
    for (size_t n = 2; n <= (c.thorough ? 5 : 4); n++) each_graph(n, [&](const Net &g) { each_batching(g, false); });
    // full layers whose values are laid out in rows and channels
    struct Layout { size_t r, c, h; };
    std::vector<Layout> layouts = {{2, 2, 1}, {1, 2, 2}, {2, 1, 2}, {3, 1, 1}};
    if (c.thorough) layouts.insert(layouts.end(), {{1, 1, 2}, {2, 1, 1}, {2, 2, 2}, {1, 3, 2}, {2, 3, 1}, {3, 2, 2}});
    for (auto &lay: layouts) for (auto a: acts()) for (auto &s: std::vector<Shape>{{1, 2, 1}, {2, 2, 1}, {1, 2, 2}}) {
        V v;
        v.in = s; v.n = lay.r * lay.c * lay.h; v.rows = lay.r; v.chans = lay.h; v.act = a;
        options(v, [&](const V &o) {
            V last = o;
            last.output = true;
            Net net;
            net.loss = mse;
            net.v = {last};
            each_batching(net, true);
            for (auto &t: tails) with_tail(o, t, true);
            // and as the output behind a full, a flatten and a convolution layer
            V h = mid(LayerType::full, 2, tanhDefault);
            V q = last;
            q.in = Shape{};
            with_tail(input(h, s), {{q}, mae}, true);
            with_tail(input(mid(LayerType::flatten), s), {{q}, mse}, true);
        });
    }
    if (!c.thorough) return;
    for (auto a: acts()) for (auto b: last_acts) for (auto l: losses(b, 2)) {
        V v;
        v.act = a; v.n = 2; v.in = {1, 2, 1};
        options(v, [&](const V &o) {
            V w;
            w.act = b; w.n = 2; w.output = true;
            options(w, [&](const V &p) { with_tail(o, {{p}, l}, true); });
        });
    }
}

}

MC_MAIN
