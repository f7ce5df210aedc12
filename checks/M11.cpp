// Accuracy of a network over a dataset, and the decoders that name its answers.
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "ml_ref.hpp"
#include "util/encoder_decoder_builder.hpp"

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M11";
    i.rule = "a network that passes its inputs on (its weights are loaded from files) is asked for its accuracy on every dataset of up to some rows of every pair of a prediction and a truth from small "
             "alphabets, for one or two outputs of one to three values and every limit; the accuracy must be the share of rows whose every value (rounded) or every best category agrees. "
             "Decoders: every vector of a list of values, every number of answers: the best category is the first largest value, the top ones are in falling order. state = dataset, transition = row";
    i.bounds_quick = {"binary: 5 predictions x 2 truths, up to 3 values in all, up to 2 rows (3 with one value)", "categories: 3 values, up to 2 outputs of 1..3 categories, up to 2 rows", "decoders: up to 4 of 4 values"};
    i.bounds_thorough = {"binary: 5 predictions x 2 truths, up to 4 values in all, up to 3 rows (4 with one value)", "categories: 4 values, up to 3 rows", "decoders: up to 6 of 4 values"};
    i.assumptions = {"halves are left out: they round either way", "a dataset without rows has no accuracy"};
    return i;
}

struct Model {
    Net n;
    std::shared_ptr<NeuralNetworkForTraining> m;
};

// outputs of the given widths, each passing on an input of its own
static Model passing(mc::Ctx &c, const std::vector<int> &widths) {
    Model r;
    for (int w: widths) {
        V v;
        v.n = w;
        v.in = {1, (size_t) w, 1};
        v.output = true;
        r.n.v.push_back(v);
    }
    auto repo = c.fresh("repo");
    r.m = r.n.build("m", repo);
    r.m->setSilentMode(true);
    r.m->saveKnowledge("k", true);
    size_t i = 0;
    for (auto &f: mc::tree(repo + "/m/k")) {
        std::vector<float> one((size_t) widths[i] * widths[i]);
        for (int j = 0; j < widths[i]; j++) one[j * widths[i] + j] = 1;
        tensor_of(one, {(size_t) widths[i], (size_t) widths[i], 1})->save(repo + "/m/k/" + f);
        i++;
    }
    if (i != widths.size()) c.fail("harness", "files " + mc::show(mc::tree(repo + "/m/k")));
    r.m->loadKnowledge("k");
    return r;
}

template<class X> static std::string nums(const X &v) { return mc::show(std::vector<float>(v.begin(), v.end())); }

static std::shared_ptr<RawDecoder> labels(int n) {
    std::vector<std::string> l;
    for (int i = 0; i < n; i++) l.push_back(std::string(1, 'a' + i));
    return std::make_shared<BestTextCategoryDecoder>(l);
}

static size_t best(const Vec &v) { return std::max_element(v.begin(), v.end()) - v.begin(); }

static void accuracies(mc::Ctx &c, bool categories) {
    std::vector<double> preds = categories ? std::vector<double>{0, 0.25, 0.75} : std::vector<double>{-0.25, 0, 0.25, 0.75, 1.25}, truths = {0, 1};
    if (categories && c.thorough) preds.push_back(1);
    int most = c.thorough ? 4 : 3;
    for (auto &widths: std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}}) {
        int n = 0;
        for (int w: widths) n += w;
        if (!categories && n > most) continue;
        if (categories && (n > 4 || (n > 3 && !c.thorough)) && widths.size() > 1) continue;
        for (int rows = 1; rows <= (c.thorough ? 4 : 3); rows++) {
            // the rows: predictions and truths
            long options = 1;
            if (categories) {
                for (int w: widths) options *= w;        // truths are one-hot
                for (int i = 0; i < n; i++) options *= (long) preds.size();
            } else for (int i = 0; i < n; i++) options *= (long) (preds.size() * truths.size());
            double all = std::pow((double) options, rows);
            if (all > (c.thorough ? 2.2e6 : 1.1e5)) break;
            Model model;
            std::string name = std::string(categories ? "categories" : "binary") + " widths " + nums(widths) + " rows ";
            mc::sequences((int) options, rows, [&](const std::vector<int> &v) {
                if (!c.take()) return;
                std::vector<Record> recs;
                std::string d = name;
                for (int o: v) {
                    Record r;
                    for (int w: widths) {
                        Vec g, e;
                        for (int i = 0; i < w; i++) {
                            g.push_back(preds[o % preds.size()]);
                            o /= (int) preds.size();
                            if (!categories) {
                                e.push_back(truths[o % 2]);
                                o /= 2;
                            }
                        }
                        if (categories) {
                            e.assign(w, 0);
                            e[o % w] = 1;
                            o /= w;
                        }
                        d += nums(g) + nums(e) + " ";
                        r.given.push_back(g);
                        r.expected.push_back(e);
                    }
                    recs.push_back(r);
                }
                c.desc(d);
                c.run([&] {
                    if (!model.m) model = passing(c, widths);
                    auto ds = dataset(model.n, recs);
                    std::vector<std::shared_ptr<RawDecoder>> decoders;
                    for (int w: widths) decoders.push_back(labels(w));
                    for (int limit = -1; limit <= rows + 1; limit++) {
                        if (limit == 0) continue;
                        int used = limit < 0 ? rows : std::min(limit, rows), right = 0;
                        for (int r = 0; r < used; r++) {
                            bool ok = true;
                            for (size_t k = 0; k < widths.size(); k++) {
                                if (categories) ok = ok && best(recs[r].given[k]) == best(recs[r].expected[k]);
                                else for (int i = 0; i < widths[k]; i++) ok = ok && std::round(recs[r].given[k][i]) == recs[r].expected[k][i];
                            }
                            right += ok;
                        }
                        float got = categories ? model.m->compute_categorical_accuracy(ds, decoders, limit) : model.m->compute_binary_accuracy(ds, limit);
                        if (got != (float) right / (float) used) c.fail("accuracy", mc::show(got) + " with limit " + std::to_string(limit) + ", " + std::to_string(right) + " of " + std::to_string(used) + " are right");
                        c.transition(used);
                    }
                    c.state(mc::hash(d));
                    c.trace();
                });
            });
        }
    }
}

static void decoders(mc::Ctx &c) {
    std::vector<float> al = {-1, 0, 0.5f, 2};
    for (int n = 1; n <= (c.thorough ? 6 : 4); n++)
        mc::sequences(4, n, [&](const std::vector<int> &v) {
            if (!c.take()) return;
            std::vector<float> x;
            for (int k: v) x.push_back(al[k]);
            c.desc("decode " + mc::show(x));
            c.run([&] {
                auto t = tensor_of(x, {1, (size_t) n, 1});
                auto d = labels(n);
                auto name = [](size_t i) { return std::string(1, 'a' + (char) i); };
                c.check(d->decodeBest(t) == name(best(Vec(x.begin(), x.end()))), "best", "is " + d->decodeBest(t));
                for (size_t k = 1; k <= (size_t) n + 1; k++) {
                    auto top = d->decodeTop(t, k);
                    bool ok = top.size() == std::min(k, (size_t) n);
                    std::set<std::string> once(top.begin(), top.end());
                    ok = ok && once.size() == top.size();
                    auto sorted = x;
                    std::sort(sorted.rbegin(), sorted.rend());
                    for (size_t i = 0; ok && i < top.size(); i++) ok = top[i].size() == 1 && (size_t) (top[i][0] - 'a') < x.size() && x[top[i][0] - 'a'] == sorted[i];
                    c.check(ok, "top", "the top " + std::to_string(k) + " are " + mc::show(top));
                    c.transition();
                }
                // more values than categories: the answer may be refused, it is never something else
                if (n > 1) {
                    auto few = labels(n - 1);
                    for (size_t k = 0; k <= (size_t) n; k++) {
                        std::vector<std::string> got;
                        try { got = k ? few->decodeTop(t, k) : std::vector<std::string>{few->decodeBest(t)}; }
                        catch (const std::exception &) { continue; }
                        for (auto &g: got) c.check(g.size() == 1 && g[0] - 'a' < n - 1, "category", "one that does not exist");
                    }
                }
                c.state(mc::hash(mc::show(x)));
                c.trace();
            });
        });
}

static void explore(mc::Ctx &c) {
    accuracies(c, false);
    accuracies(c, true);
    decoders(c);
}

}

MC_MAIN
