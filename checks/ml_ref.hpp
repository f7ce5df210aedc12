// Reference neural network: forward pass on plain doubles, gradients by central differences of that forward pass.
// Include inside no namespace, after happyml_dsl.hpp; everything lives in harness::net.
#ifndef ML_REF_HPP
#define ML_REF_HPP

#include "mc.hpp"
#include "ml/happyml_dsl.hpp"

namespace harness {

namespace net {
    using namespace happyml;
    using T = std::shared_ptr<BaseTensor>;
    using Vec = std::vector<double>;

    struct Shape {
        size_t r = 1, c = 1, h = 1;

        size_t n() const { return r * c * h; }

        std::vector<size_t> vec() const { return {r, c, h}; }

        std::string str() const { return std::to_string(r) + "x" + std::to_string(c) + "x" + std::to_string(h); }

        bool operator==(const Shape &o) const { return r == o.r && c == o.c && h == o.h; }
    };

    // one vertex of the builder
    struct V {
        LayerType type = LayerType::full;
        std::vector<int> parents;      // empty: an input
        Shape in;                      // of an input
        size_t n = 1;                  // width (full)
        size_t rows = 1, chans = 1;    // how the width is laid out (full)
        size_t filters = 1, kernel = 2;
        ActivationType act = ActivationType::linear;
        bool bias = false, norm = false, output = false;
        int l2 = -1;                   // -1: default, 0: off, 1: on
        float strength = 0.02f;
        float clip = 0;                // 0: off
        float dropout = 0;
        int bits = 32;
        int materialized = -1;

        std::string str() const {
            std::string s = nodeTypeToString(type);
            if (parents.empty()) s = in.str() + ">" + s;
            else if (parents.size() > 1 || true) {
                s += "<";
                for (int p: parents) s += std::to_string(p + 1) + ",";
                s.back() = '>';
            }
            if (type == LayerType::full) s += std::to_string(n);
            if (rows * chans > 1) s += "(" + std::to_string(rows) + "x" + std::to_string(n / rows / chans) + "x" + std::to_string(chans) + ")";
            if (type == LayerType::convolution2dValid) s += std::to_string(filters) + "k" + std::to_string(kernel);
            if (type == LayerType::full || type == LayerType::convolution2dValid) s += ":" + activationTypeToString(act);
            if (bias) s += "+bias";
            if (norm) s += "+norm";
            if (l2 >= 0) s += l2 ? "+l2" : "-l2";
            if (l2 > 0 && strength != 0.02f) s += "=" + mc::show(strength);
            if (clip > 0) s += "+clip" + mc::show(clip);
            if (dropout > 0) s += "+drop" + mc::show(dropout);
            if (bits != 32) s += "+" + std::to_string(bits) + "bit";
            if (materialized >= 0) s += materialized ? "+mat" : "-mat";
            if (output) s += "!";
            return s;
        }
    };

    struct Net {
        std::vector<V> v;
        OptimizerType opt = OptimizerType::sgd;
        LossType loss = LossType::mse;
        float lr = 1.0f, blr = 0.5f;

        std::string str() const {
            std::string s = lossTypeToString(loss);
            for (auto &x: v) s += " " + x.str();
            return s;
        }

        Shape out_shape(int i) const {
            auto &x = v[i];
            Shape s = in_shape(i);
            switch (x.type) {
                case LayerType::full: return {x.rows, x.n / x.rows / x.chans, x.chans};
                case LayerType::flatten: return {1, s.n(), 1};
                case LayerType::convolution2dValid: return {s.r - x.kernel + 1, s.c - x.kernel + 1, x.filters};
                case LayerType::concatenate: {
                    size_t c = 0;
                    for (int p: x.parents) c += out_shape(p).c;
                    return {1, c, 1};
                }
                default: return s;
            }
        }

        Shape in_shape(int i) const { return v[i].parents.empty() ? v[i].in : out_shape(v[i].parents[0]); }

        bool l2(int i) const { return v[i].l2 < 0 ? v[i].type == LayerType::full : v[i].l2 > 0; }

        std::vector<int> heads() const {
            std::vector<int> r;
            for (size_t i = 0; i < v.size(); i++) if (v[i].parents.empty()) r.push_back((int) i);
            return r;
        }

        // output vertices in the order in which the network reports them: order of a depth-first build from the heads
        std::vector<int> outputs() const {
            std::vector<int> r;
            std::vector<bool> seen(v.size());
            std::function<void(int)> go = [&](int i) {
                if (seen[i]) return;
                seen[i] = true;
                if (v[i].output) r.push_back(i);
                for (size_t j = 0; j < v.size(); j++) for (int p: v[j].parents) if (p == i) go((int) j);
            };
            for (int h: heads()) go(h);
            return r;
        }

        size_t children(int i) const {
            size_t n = 0;
            for (auto &x: v) for (int p: x.parents) n += p == i;
            return n;
        }

        std::shared_ptr<NeuralNetworkForTraining> build(const std::string &name, const std::string &repo) const {
            auto dsl = neuralNetworkBuilder(opt, name, repo)->setLossFunction(loss)->setLearningRate(lr)->setBiasLearningRate(blr);
            std::vector<std::shared_ptr<HappymlDSL::NNVertex>> made;
            for (size_t i = 0; i < v.size(); i++) {
                auto &x = v[i];
                std::shared_ptr<HappymlDSL::NNVertex> m;
                Shape o = out_shape((int) i);
                bool conv = x.type == LayerType::convolution2dValid;
                if (x.parents.empty()) {
                    if (conv && x.output) m = dsl->addInputOutputLayer(x.in.vec(), x.filters, x.kernel, x.type, x.act);
                    else if (conv) m = dsl->addInputLayer(x.in.vec(), x.filters, x.kernel, x.type, x.act);
                    else if (x.output) m = dsl->addInputOutputLayer(x.in.vec(), o.vec(), x.type, x.act);
                    else m = dsl->addInputLayer(x.in.vec(), o.vec(), x.type, x.act);
                } else {
                    auto &p = made[x.parents[0]];
                    if (x.type == LayerType::concatenate) {
                        std::vector<std::shared_ptr<HappymlDSL::NNVertex>> ps;
                        for (int q: x.parents) ps.push_back(made[q]);
                        m = dsl->add_concatenated_layer(ps);
                    } else if (x.type == LayerType::dropout) m = p->addDropoutLayer(x.dropout);
                    else if (x.type == LayerType::normalize) m = p->addNormalizationLayer();
                    else if (conv && x.output) m = p->addOutput(o.vec(), x.kernel, x.type, x.act);
                    else if (conv) m = p->addLayer(x.filters, x.kernel, x.type, x.act);
                    else if (x.output && x.rows * x.chans > 1) m = p->addOutputLayer(o.vec(), x.act);
                    else if (x.output) m = p->addOutput(o.c, x.act);
                    else m = p->addLayer(o.vec(), x.type, x.act);
                }
                if (x.bias) m->setUseBias(true);
                if (x.norm) m->setUseNormalization(true);
                if (x.l2 >= 0) m->setUseL2Regularization(x.l2 > 0);
                if (x.l2 > 0) m->setRegularizationStrength(x.strength);
                if (x.clip > 0) m->setNormClippingThreshold(x.clip);
                if (x.bits != 32) m->setBits(x.bits);
                if (x.materialized >= 0) m->setMaterialized(x.materialized > 0);
                made.push_back(m);
            }
            return dsl->build();
        }
    };

    // knowledge: tensor name -> values in offset order (channel, row, column)
    using Know = std::map<std::string, std::vector<float>>;

    inline std::vector<float> values(const T &t) {
        std::vector<float> r(t->size());
        for (size_t i = 0; i < r.size(); i++) r[i] = t->getValue(i);
        return r;
    }

    inline Know read_knowledge(const std::string &path) {
        Know k;
        for (auto &f: mc::tree(path))
            if (f.size() > 7 && f.substr(f.size() - 7) == ".tensor")
                k[f.substr(0, f.size() - 7)] = values(std::make_shared<FullTensor>(path + "/" + f));
        return k;
    }

    inline std::string show(const Know &k) {
        std::string s;
        for (auto &x: k) s += x.first + mc::show(x.second) + " ";
        return s;
    }

    inline T tensor_of(const std::vector<float> &x, const Shape &s) {
        std::vector<std::vector<std::vector<float>>> d(s.h, std::vector<std::vector<float>>(s.r, std::vector<float>(s.c)));
        for (size_t h = 0; h < s.h; h++) for (size_t r = 0; r < s.r; r++) for (size_t c = 0; c < s.c; c++) d[h][r][c] = x.at((h * s.r + r) * s.c + c);
        return std::make_shared<FullTensor>(d);
    }

    using DKnow = std::map<std::string, Vec>;

    inline DKnow widen(const Know &k) {
        DKnow d;
        for (auto &x: k) d[x.first] = Vec(x.second.begin(), x.second.end());
        return d;
    }

    inline double activate(ActivationType a, double x) {
        switch (a) {
            case relu: return x > 0 ? x : 0;
            case leaky: return x < 0 ? 0.01 * x : x;
            case sigmoid: return 1 / (1 + std::exp(-x));
            case sigmoidApprox: return 0.5 * (x / (1 + std::fabs(x)) + 1);
            case tanhDefault: case tanhApprox: return std::tanh(x);
            default: return x;
        }
    }

    // One evaluation of the reference network. Nodes are numbered in order of evaluation; each node input may be shifted
    // (to take derivatives there) and attenuated towards its base value (to model what the library does to errors on
    // their way back: an average where a vertex feeds several others, norm clipping).
    struct Eval {
        const Net &net;
        const DKnow &k;
        std::vector<Vec> base;            // node inputs of the unperturbed evaluation
        std::vector<double> scale;        // node input attenuation
        std::vector<Vec> edge_base;       // vertex outputs of the unperturbed evaluation
        std::vector<int> clip_nodes;      // nodes which clip, in order of evaluation
        std::vector<double> clip_at;
        int shift_node = -1;
        size_t shift_at = 0;
        double shift = 0;
        bool recording = true;
        double nearest_kink = 1e9, smallest_std = 1e9;

        Eval(const Net &n, const DKnow &kn) : net(n), k(kn) {}

        std::vector<Vec> operator()(const std::vector<Vec> &inputs) {
            std::vector<Vec> out(net.v.size());
            int node = -1;
            if (recording) { base.clear(); edge_base.assign(net.v.size(), {}); clip_nodes.clear(); clip_at.clear(); }
            auto enter = [&](Vec x, float clip) {
                node++;
                if (recording) {
                    base.push_back(x);
                    scale.push_back(1);
                    if (clip > 0) { clip_nodes.push_back(node); clip_at.push_back(clip); }
                } else {
                    if (scale[node] != 1) for (size_t i = 0; i < x.size(); i++) x[i] = base[node][i] + scale[node] * (x[i] - base[node][i]);
                    if (shift_node == node) x[shift_at] += shift;
                }
                return x;
            };
            if (recording) scale.clear();
            size_t head = 0;
            for (size_t i = 0; i < net.v.size(); i++) {
                auto &v = net.v[i];
                auto parent = [&](int p) {
                    Vec x = out[p];
                    size_t n = net.children(p);
                    if (!recording && n > 1) for (size_t j = 0; j < x.size(); j++) x[j] = edge_base[p][j] + (x[j] - edge_base[p][j]) / (double) n;
                    return x;
                };
                Vec x;
                Shape s = net.in_shape((int) i), o = net.out_shape((int) i);
                if (v.parents.empty()) x = inputs.at(head++);
                else if (v.parents.size() == 1) x = parent(v.parents[0]);
                else for (int p: v.parents) { Vec y = parent(p); x.insert(x.end(), y.begin(), y.end()); }
                std::string id = std::to_string(i + 1);
                if (v.type == LayerType::full) {
                    x = enter(x, v.clip);
                    auto &w = k.at(id + "_full");
                    Vec y(v.n);
                    for (size_t c = 0; c < v.n; c++) for (size_t r = 0; r < x.size(); r++) y[c] += x[r] * w.at(r * v.n + c);
                    x = y;
                } else if (v.type == LayerType::convolution2dValid) {
                    x = enter(x, v.clip);
                    Vec y(o.n());
                    for (size_t f = 0; f < v.filters; f++) {
                        auto &w = k.at(id + "_c2dv_" + std::to_string(f));
                        for (size_t h = 0; h < s.h; h++) for (size_t r = 0; r < o.r; r++) for (size_t c = 0; c < o.c; c++)
                            for (size_t a = 0; a < v.kernel; a++) for (size_t b = 0; b < v.kernel; b++)
                                y[(f * o.r + r) * o.c + c] += x.at((h * s.r + r + a) * s.c + c + b) * w.at((h * v.kernel + a) * v.kernel + b);
                    }
                    x = y;
                } else if (v.type == LayerType::normalize) {
                    x = standardize(enter(x, v.clip));
                } else x = enter(x, v.clip);
                if (v.bias) {
                    x = enter(x, v.clip);
                    auto &b = k.at(id + "_bias");
                    for (size_t j = 0; j < x.size(); j++) x[j] += b.at(j);
                }
                if (v.norm) x = standardize(enter(x, v.clip));
                if (v.type == LayerType::full || v.type == LayerType::convolution2dValid) {
                    x = enter(x, v.clip);
                    if (v.act == softmax) {
                        double m = *std::max_element(x.begin(), x.end()), t = 0;
                        for (auto &e: x) { e = std::exp(e - m); t += e; }
                        for (auto &e: x) e /= t;
                    } else for (auto &e: x) {
                        if (recording && (v.act == relu || v.act == leaky)) nearest_kink = std::min(nearest_kink, std::fabs(e));
                        e = activate(v.act, e);
                    }
                }
                out[i] = x;
                if (recording) edge_base[i] = x;
            }
            std::vector<Vec> r;
            for (int i: net.outputs()) r.push_back(out[i]);
            return r;
        }

        Vec standardize(Vec x) {
            double m = 0, s = 0;
            for (double e: x) m += e;
            m /= (double) x.size();
            for (double e: x) s += (e - m) * (e - m);
            s = std::sqrt(s / (double) x.size());
            if (recording) smallest_std = std::min(smallest_std, s);
            if (s == 0) s = 1;
            for (double &e: x) e = (e - m) / s;
            return x;
        }
    };

    // the loss as reported
    inline double reported_loss(LossType l, const Vec &truth, const Vec &p) {
        double t = 0, n = (double) p.size();
        auto clip = [](double x) { return std::min(1.0, std::max(1e-8, x)); };
        for (size_t i = 0; i < p.size(); i++) {
            double d = p[i] - truth[i];
            switch (l) {
                case mse: t += d * d / n; break;
                case mae: t += std::fabs(d) / n; break;
                case smae: t += (std::fabs(d) < 1 ? 0.5 * d * d : std::fabs(d) - 0.5) / n; break;
                case categoricalCrossEntropy: t -= truth[i] * std::log(clip(p[i])); break;
                case binaryCrossEntropy: t -= truth[i] * std::log(clip(p[i])) + (1 - truth[i]) * std::log(clip(1 - p[i])); break;
            }
        }
        return t;
    }

    // the function whose gradient is followed: the loss summed (not averaged) over the elements of an output
    inline double summed_loss(LossType l, const Vec &truth, const Vec &p) {
        double n = l == mse || l == mae || l == smae ? (double) p.size() : 1;
        return reported_loss(l, truth, p) * n;
    }

    struct Record {
        std::vector<Vec> given, expected;
    };

    struct Step {
        DKnow grad;
        double loss = 0;                 // mean over the outputs, as reported
        double nearest_kink = 1e9, smallest_std = 1e9, clip_margin = 1e9;
    };

    inline Step gradient(const Net &net, const DKnow &know, const Record &rec) {
        Step st;
        DKnow k = know;
        Eval e(net, k);
        auto total = [&] {
            auto out = e(rec.given);
            double t = 0;
            for (size_t i = 0; i < out.size(); i++) t += summed_loss(net.loss, rec.expected[i], out[i]);
            return t;
        };
        auto out = e(rec.given);
        for (size_t i = 0; i < out.size(); i++) {
            st.loss += reported_loss(net.loss, rec.expected[i], out[i]) / (double) out.size();
            for (size_t j = 0; j < out[i].size(); j++) {
                double d = std::fabs(out[i][j] - rec.expected[i][j]);
                if (net.loss == mae) st.nearest_kink = std::min(st.nearest_kink, d);
                if (net.loss == smae) st.nearest_kink = std::min(st.nearest_kink, std::fabs(d - 1));
            }
        }
        st.nearest_kink = std::min(st.nearest_kink, e.nearest_kink);
        st.smallest_std = e.smallest_std;
        e.recording = false;
        const double h = 1e-5;
        auto clips = e.clip_nodes;
        for (size_t c = clips.size(); c-- > 0;) {
            double sq = 0;
            e.shift_node = clips[c];
            for (e.shift_at = 0; e.shift_at < e.base[clips[c]].size(); e.shift_at++) {
                e.shift = h;
                double a = total();
                e.shift = -h;
                double d = (a - total()) / (2 * h);
                sq += d * d;
            }
            double norm = std::sqrt(sq);
            st.clip_margin = std::min(st.clip_margin, std::fabs(norm - e.clip_at[c]));
            if (norm > e.clip_at[c]) e.scale[clips[c]] = e.clip_at[c] / norm;
        }
        e.shift_node = -1;
        for (auto &w: k) {
            Vec g(w.second.size());
            for (size_t i = 0; i < g.size(); i++) {
                double old = w.second[i];
                w.second[i] = old + h;
                double a = total();
                w.second[i] = old - h;
                g[i] = (a - total()) / (2 * h);
                w.second[i] = old;
            }
            st.grad[w.first] = g;
        }
        return st;
    }

    inline int vertex_of(const std::string &name) { return atoi(name.c_str()) - 1; }

    inline bool is_bias(const std::string &name) { return name.find("_bias") != std::string::npos; }

    // A data set that hands out its records in a fixed order, whatever the shuffler says, and records what was asked.
    class Fixed : public TrainingDataSet {
    public:
        std::vector<std::shared_ptr<TrainingPair>> pairs;
        std::vector<std::vector<size_t>> gs, es;
        size_t at = 0, served = 0, restarts = 0;
        bool obey_shuffler = false;
        std::vector<size_t> order;

        size_t recordCount() override { return pairs.size(); }

        void restart() override { at = 0; restarts++; }

        std::shared_ptr<TrainingPair> nextRecord() override {
            if (at >= pairs.size()) return nullptr;
            size_t i = obey_shuffler && shuffler_ ? shuffler_->getShuffledIndex(at) : at;
            at++;
            served++;
            order.push_back(i);
            return pairs[i];
        }

        std::vector<std::vector<size_t>> getGivenShapes() override { return gs; }

        std::vector<std::vector<size_t>> getExpectedShapes() override { return es; }
    };

    inline std::shared_ptr<Fixed> dataset(const Net &net, const std::vector<Record> &recs) {
        auto d = std::make_shared<Fixed>();
        auto heads = net.heads(), outs = net.outputs();
        for (int h: heads) d->gs.push_back(net.v[h].in.vec());
        for (int o: outs) d->es.push_back(net.out_shape(o).vec());
        for (auto &r: recs) {
            std::vector<T> g, e;
            for (size_t i = 0; i < heads.size(); i++) g.push_back(tensor_of(std::vector<float>(r.given[i].begin(), r.given[i].end()), net.v[heads[i]].in));
            for (size_t i = 0; i < outs.size(); i++) e.push_back(tensor_of(std::vector<float>(r.expected[i].begin(), r.expected[i].end()), net.out_shape(outs[i])));
            d->pairs.push_back(std::make_shared<TrainingPair>(g, e));
        }
        return d;
    }

    // records with generic values, different for every record number and network
    inline std::vector<Record> records(const Net &net, size_t n, int salt = 0) {
        std::vector<Record> r;
        auto heads = net.heads(), outs = net.outputs();
        mc::u64 z = 12345 + salt;
        auto next = [&] { z = mc::mix(z); return (double) (float) (((z >> 20) % 2000) / 1000.0 - 1.0 + 0.0003); };
        for (size_t i = 0; i < n; i++) {
            Record x;
            for (int h: heads) {
                Vec g(net.v[h].in.n());
                for (auto &e: g) e = next();
                x.given.push_back(g);
            }
            for (int o: outs) {
                Vec g(net.out_shape(o).n());
                if (net.loss == categoricalCrossEntropy) g[(i + salt) % g.size()] = 1;
                else if (net.loss == binaryCrossEntropy) for (size_t j = 0; j < g.size(); j++) g[j] = (i + j + salt) % 2;
                else for (auto &e: g) e = (double) (float) (1.7 * next());
                x.expected.push_back(g);
            }
            r.push_back(x);
        }
        return r;
    }

    // All graphs of n full-width-distinct vertices: every vertex is an input, a full layer behind any earlier vertex, or a
    // concatenation of any two (or three) earlier vertices in any order; vertices without successors are outputs.
    template<class F>
    void each_graph(size_t n, F f, ActivationType act = tanhDefault) {
        std::vector<V> v(n);
        std::function<void(size_t)> go = [&](size_t i) {
            if (i == n) {
                Net net;
                net.v = v;
                for (size_t j = 0; j < n; j++) {
                    auto &x = net.v[j];
                    x.output = net.children((int) j) == 0;
                    if (x.output && x.type != LayerType::full) return;
                    x.bias = j % 2 && x.type == LayerType::full;
                }
                f(net);
                return;
            }
            V x;
            x.n = i % 3 + 1;
            x.act = act;
            x.in = {1, (i + 1) % 2 + 1, 1};
            v[i] = x;
            go(i + 1);
            for (size_t a = 0; a < i; a++) {
                v[i] = x;
                v[i].parents = {(int) a};
                go(i + 1);
            }
            x.type = LayerType::concatenate;
            for (size_t a = 0; a < i; a++) for (size_t b = 0; b < i; b++) {
                if (a != b) {
                    v[i] = x;
                    v[i].parents = {(int) a, (int) b};
                    go(i + 1);
                }
                for (size_t e = 0; e < i; e++) if (a != b && b != e && a != e) {
                    v[i] = x;
                    v[i].parents = {(int) a, (int) b, (int) e};
                    go(i + 1);
                }
            }
        };
        go(0);
    }

    class Epochs : public ExitStrategy {
    public:
        size_t n;
        explicit Epochs(size_t epochs) : n(epochs) {}
        bool isDone(size_t currentEpoch, float, int64_t) override { return currentEpoch >= n; }
        std::string whyDone(size_t, float, int64_t) override { return ""; }
    };
}

}

#endif
