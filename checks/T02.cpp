// Tensor queries (sums, extremes, indices, moments, norms, element access): all small tensors over a value alphabet.
#include "tensor_ref.hpp"

namespace harness {

using namespace ref;

static mc::Info info() {
    mc::Info i;
    i.id = "T02";
    i.rule = "case = (shape, first value); all assignments of alphabet values to the elements are built as real tensors and every query is compared with its definition; "
             "state = distinct (shape, values); transition = one tensor fully queried";
    i.bounds_quick = {"all shapes with at most 6 elements and at most 3 channels, all assignments over {-2,-1,0,1,3}", "15 shapes with 6 to 306 elements, 60 rotations of patterns", "7 magnitudes from 1e-30 to 1e30 of up to 5000 elements"};
    i.bounds_thorough = {"all shapes with at most 8 elements, all assignments over {-2,-1,0,1,3}; 16 larger shapes"};
    i.assumptions = {"moments compared within single-precision tolerance"};
    return i;
}

static bool near(double got, double want, double tol = 1e-4) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want)) return got == want;
    return std::fabs(got - want) <= tol * std::max(1.0, std::fabs(want));
}

static void query(mc::Ctx &c, const R &a) {
    T t = make(a);
    auto chk = [&](bool ok, const char *what, double got, double want) {
        if (!ok) c.fail_key(std::string(what) + " @ " + a.str(), "expected " + mc::show(want) + ", got " + mc::show(got));
    };
    double sum = 0, prod = 1, mx = -INFINITY, mn = INFINITY, ma = 0, sq = 0, lg = 0;
    bool nonpos = false;
    for (double x: a.v) {
        sum += x;
        prod *= x;
        mx = std::max(mx, x);
        mn = std::min(mn, x);
        ma = std::max(ma, std::fabs(x));
        sq += x * x;
        if (x <= 0) nonpos = true;
        else lg += std::log(x);
    }
    size_t n = a.v.size();
    double mean = sum / n, var = 0, varp = 0;
    for (double x: a.v) {
        var += (x - mean) * (x - mean) / n;
        varp += (x - 0.75) * (x - 0.75) / n;
    }
    chk(t->size() == n, "size", t->size(), n);
    chk(t->elementsPerChannel() == a.rows * a.cols, "elements-per-channel", t->elementsPerChannel(), a.rows * a.cols);
    auto sh = t->getShape();
    chk(sh.size() == 3 && sh[0] == a.rows && sh[1] == a.cols && sh[2] == a.chs, "shape", sh.size(), 3);
    chk(near(t->sum(), sum), "sum", t->sum(), sum);
    chk(near(t->product(), prod), "product", t->product(), prod);
    chk(t->max() == (float) mx, "max", t->max(), mx);
    chk(t->min() == (float) mn, "min", t->min(), mn);
    chk(t->max_abs() == (float) ma, "max-abs", t->max_abs(), ma);
    auto rg = t->range();
    chk(rg.first == (float) mn && rg.second == (float) mx, "range", rg.first, mn);
    chk(near(t->arithmeticMean(), mean), "mean", t->arithmeticMean(), mean);
    chk(near(t->variance(), var), "variance", t->variance(), var);
    chk(near(t->variance_point(0.75f), varp), "variance-point", t->variance_point(0.75f), varp);
    chk(near(t->standardDeviation(), std::sqrt(var)), "standard-deviation", t->standardDeviation(), std::sqrt(var));
    chk(near(t->euclidean_norm(), std::sqrt(sq)), "norm", t->euclidean_norm(), std::sqrt(sq));
    double gm = nonpos ? NAN : std::exp(lg / n);
    chk(near(t->geometricMean(), gm), "geometric-mean", t->geometricMean(), gm);
    chk(!t->hasNaNOrInf(), "finite", 1, 0);
    chk(!hasInvalidValues(t), "valid", 1, 0);
    chk(scalar(t) == (float) a.v[0], "scalar", scalar(t), a.v[0]);
    for (size_t i = 0; i < n; i++) chk(t->getValue(i) == (float) a.v[i], "offset", t->getValue(i), a.v[i]);
    chk(t->contains(t), "contains-self", 0, 1);
    T view = make_shared<ScalarAddTensorView>(make_shared<TransposeTensorView>(t), 1.f), other = make_shared<UniformTensor>(1, 1, 1, 0.f);
    chk(view->contains(t) && !view->contains(other) && !t->contains(view), "contains", 0, 1);
    for (size_t h = 0; h < a.chs; h++) {
        for (size_t r = 0; r < a.rows; r++) {
            std::vector<double> row;
            for (size_t k = 0; k < a.cols; k++) row.push_back(a.at(r, k, h));
            double rmx = *std::max_element(row.begin(), row.end()), rmn = *std::min_element(row.begin(), row.end());
            std::vector<size_t> maxs, mins;
            for (size_t k = 0; k < row.size(); k++) {
                if (row[k] == rmx) maxs.push_back(k);
                if (row[k] == rmn) mins.push_back(k);
            }
            chk(t->maxIndexByRow(h, r) == maxs[0], "max-index-by-row", t->maxIndexByRow(h, r), maxs[0]);
            chk(t->minIndex(h, r) == mins[0], "min-index", t->minIndex(h, r), mins[0]);
            chk(t->maxIndices(h, r) == maxs, "max-indices", t->maxIndices(h, r).size(), maxs.size());
            chk(t->minIndices(h, r) == mins, "min-indices", t->minIndices(h, r).size(), mins.size());
            if (h == 0 && r == 0) chk(maxIndex(t) == maxs[0], "max-index", maxIndex(t), maxs[0]);
            auto rv = t->getRowValues(r, h);
            bool ok = rv.size() == row.size();
            for (size_t k = 0; ok && k < row.size(); k++) ok = rv[k] == (float) row[k];
            chk(ok, "row-values", rv.size(), row.size());
            auto sorted = row;
            std::sort(sorted.rbegin(), sorted.rend());
            for (size_t want = 0; want <= a.cols + 1; want += a.cols > 20 ? 7 : 1) {
                auto top = t->topIndices(want, h, r);
                bool good = top.size() == std::min(want, a.cols);
                std::set<size_t> used;
                for (size_t k = 0; good && k < top.size(); k++)
                    good = top[k].getValue() == (float) sorted[k] && top[k].getIndex() < a.cols && row[top[k].getIndex()] == sorted[k] && used.insert(top[k].getIndex()).second;
                chk(good, "top-indices", top.size(), want);
            }
        }
        for (size_t k = 0; k < a.cols; k++) {
            size_t best = 0;
            for (size_t r = 1; r < a.rows; r++) if (a.at(r, k, h) > a.at(best, k, h)) best = r;
            chk(t->maxIndexByCol(h, k) == best, "max-index-by-column", t->maxIndexByCol(h, k), best);
        }
    }
    // equality: a tensor equals itself and a copy, and differs after any one element changed
    auto equal = [](const T &x, const T &y) {
        try {
            assertEqual(x, y);
            return true;
        } catch (std::exception &) {
            return false;
        }
    };
    chk(equal(t, make(a)), "equal-copy", 0, 1);
    for (size_t i = 0; i < n; i += n > 60 ? 13 : 1) {
        R b = a;
        b.v[i] += 0.25;
        chk(!equal(t, make(b)) && !equal(make(b), t), "equal-differs", i, 0);
        R bad = a;
        bad.v[i] = i % 2 ? NAN : -INFINITY;
        T tb = make(bad);
        chk(tb->hasNaNOrInf() && hasInvalidValues(tb), "invalid", i, 1);
    }
    if (a.rows != a.cols) {
        R b(a.cols, a.rows, a.chs);
        b.v = a.v;
        chk(!equal(t, make(b)), "equal-shape", 0, 0);
    }
    c.state(state_hash(a));
    c.transition();
    c.trace();
}

static void explore(mc::Ctx &c) {
    std::vector<float> alpha{-2.f, -1.f, 0.f, 1.f, 3.f};
    size_t limit = c.thorough ? 8 : 6;
    for (size_t h = 1; h <= 3; h++)
        for (size_t r = 1; r <= limit; r++)
            for (size_t k = 1; k <= limit; k++) {
                size_t n = r * k * h;
                if (n > limit) continue;
                mc::sequences((int) alpha.size(), (int) std::min<size_t>(n, 3), [&](const std::vector<int> &head) {
                    if (!c.take()) return;
                    std::string d = std::to_string(r) + "x" + std::to_string(k) + "x" + std::to_string(h) + " values starting";
                    for (int x: head) d += " " + mc::show(alpha[x]);
                    c.desc(d);
                    c.run([&] {
                        mc::sequences((int) alpha.size(), (int) (n - head.size()), [&](const std::vector<int> &tail) {
                            R a(r, k, h);
                            for (size_t i = 0; i < n; i++) a.v[i] = alpha[i < head.size() ? head[i] : tail[i - head.size()]];
                            query(c, a);
                        });
                    });
                });
            }
    std::vector<std::array<size_t, 3>> big = {{2, 3, 1}, {3, 2, 2}, {1, 9, 1}, {9, 1, 1}, {3, 3, 2}, {2, 2, 3}, {4, 4, 1}, {2, 4, 2}};
    for (auto s: std::vector<std::array<size_t, 3>>{{1, 40, 1}, {40, 1, 2}, {5, 7, 3}, {1, 300, 1}, {17, 18, 1}, {2, 2, 9}, {1, 1, 12}}) big.push_back(s);
    if (c.thorough) for (size_t x = 1; x <= 8; x++) big.push_back({x, 9 - x, 1 + x % 3});
    std::vector<std::vector<float>> pats = {{1.f, 5.f, 2.f, 4.f, 3.f, 0.5f, 6.f}, {-1.f, -5.f, 2.f, -4.f, 3.f, 0.5f, -6.f, 0.f}, {100.f, 0.01f, -100.f, 3.f, 0.25f}, {2.f, 2.f, 2.f, 1.f}, {0.f}, {1000.f, 1001.f, 1002.f}};
    for (auto &s: big)
        for (size_t p = 0; p < pats.size(); p++)
            for (size_t rot = 0; rot < 10; rot++) {
                R a = pattern(s[0], s[1], s[2], pats[p], rot);
                if (!c.begin("pattern " + std::to_string(p) + " rotation " + std::to_string(rot) + " " + a.shape())) continue;
                c.run([&] { query(c, a); });
            }
    // magnitudes: sums, norms and moments keep their precision for very small and very large values and for many elements
    for (double scale: {1e-30, 1e-12, 1e-7, 1.0, 1e6, 1e12, 1e30})
        for (auto &s: std::vector<std::array<size_t, 3>>{{1, 1, 1}, {1, 3, 1}, {2, 3, 2}, {1, 2000, 1}, {50, 50, 2}}) {
            R a = pattern(s[0], s[1], s[2], {0.1f, 0.3f, 0.2f, 0.15f, 0.7f});
            for (auto &x: a.v) x = (float) (x * scale);
            if (!c.begin("values of magnitude " + mc::show(scale) + ", " + a.shape())) continue;
            c.run([&] {
                T t = make(a);
                double sum = 0, sq = 0, n = (double) a.v.size(), var = 0, lg = 0;
                for (double x: a.v) { sum += x; sq += x / scale * (x / scale); lg += std::log(x); }
                for (double x: a.v) var += (x / scale - sum / scale / n) * (x / scale - sum / scale / n) / n;
                auto rel = [&](const char *what, double got, double want, double tol) {
                    if (!(std::fabs(got - want) <= tol * std::fabs(want))) c.fail_key(std::string(what) + " of magnitude " + mc::show(scale) + " @ " + a.shape(), "expected " + mc::show(want) + ", got " + mc::show(got));
                };
                rel("sum", t->sum(), sum, 1e-9);
                rel("norm", t->euclidean_norm(), scale * std::sqrt(sq), 1e-5);
                rel("mean", t->arithmeticMean(), sum / n, 1e-4);
                rel("geometric-mean", t->geometricMean(), std::exp(lg / n), 1e-3);
                if (scale > 1e-15 && scale < 1e15 && n > 1) {
                    rel("variance", t->variance(), var * scale * scale, 1e-3);
                    rel("standard-deviation", t->standardDeviation(), std::sqrt(var) * scale, 1e-3);
                }
                c.state(state_hash(a) ^ mc::hash(mc::show(scale)));
                c.transition();
                c.trace();
            });
        }
    // generated tensors stay inside their stated range and are deterministic
    for (uint32_t seed: {0u, 1u, 42u, 7919u, 12345688u, 12345689u, 4294967295u})
        for (auto range: std::vector<std::pair<float, float>>{{-1.f, 1.f}, {0.f, 1.f}, {2.f, 2.f}, {5.f, -5.f}, {-0.01f, 0.02f}})
            for (size_t r: {1, 2, 3})
                for (size_t k: {1, 2, 7})
                    for (size_t h: {1, 2}) {
                        if (!c.begin("random seed " + std::to_string(seed) + " range " + mc::show(range.first) + ".." + mc::show(range.second) + " " + std::to_string(r) + "x" + std::to_string(k) + "x" + std::to_string(h))) continue;
                        c.run([&] {
                            T t = make_shared<TensorFromRandom>(r, k, h, range.first, range.second, seed), u = make_shared<TensorFromRandom>(r, k, h, range.first, range.second, seed);
                            T x = make_shared<TensorFromXavier>(r, k, h, seed);
                            R a = read(t), b = read(u), z = read(x);
                            float lo = std::min(range.first, range.second), hi = std::max(range.first, range.second), lim = std::sqrt(2.0 / (r + k)) / 2;
                            for (size_t i = 0; i < a.v.size(); i++) {
                                c.check(a.v[i] >= lo && a.v[i] <= hi, "random-range", mc::show(a.v[i]));
                                c.check(a.v[i] == b.v[i], "random-deterministic", mc::show(a.v[i]));
                                c.check(std::fabs(z.v[i]) <= lim * 1.0001, "xavier-range", mc::show(z.v[i]));
                            }
                            T id = make_shared<IdentityTensor>(r, k, h), un = make_shared<UniformTensor>(r, k, h, range.second);
                            R i = read(id), w = read(un);
                            for (size_t ch = 0; ch < h; ch++) for (size_t p = 0; p < r; p++) for (size_t q = 0; q < k; q++) {
                                c.check(i.at(p, q, ch) == (p == q ? 1.0 : 0.0), "identity", mc::show(i.at(p, q, ch)));
                                c.check(w.at(p, q, ch) == range.second, "uniform", mc::show(w.at(p, q, ch)));
                            }
                            c.state(state_hash(a));
                            c.transition(4);
                            c.trace();
                        });
                    }
}

}

MC_MAIN
