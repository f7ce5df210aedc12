// Tensor algebra: every composition of tensor operations up to a depth, on every small shape, equals its definition.
#include "tensor_ref.hpp"

namespace harness {

using namespace ref;

static mc::Info info() {
    mc::Info i;
    i.id = "T01";
    i.rule = "breadth-first enumeration of operation sequences applied to a start tensor; each step builds the real view over the previous view, "
             "and shape, every element and the flat (offset) access are compared with textbook definitions on plain arrays of doubles; further "
             "cases: every pair of shapes for operations that must reject incompatible operands. state = distinct (shape, values rounded to "
             "1/1024); transition = one operation applied and compared";
    i.bounds_quick = {"start shapes 1..4 x 1..4 x 1..3, 4 value patterns: all single operations (over 110 of them)", "11 larger shapes (up to 300 wide, 70 tall, 12 deep): all single operations", "22 start shapes (at most 12 elements), 2 patterns: all pairs and triples of operations (large kernels only at depth 1)",
                      "operand mismatch: all pairs of shapes 1..3 x 1..3 x 1..2"};
    i.bounds_thorough = {"start shapes 1..5 x 1..5 x 1..3, 8 patterns: single operations", "6 start shapes, 2 patterns: all sequences of four operations"};
    i.assumptions = {"results are compared within a relative tolerance (single-precision rounding); a composition is not continued where its definition is ill-conditioned "
                     "(division by values near 0, thresholds within 1e-3, singular matrices) or exceeds 1e5"};
    return i;
}

static std::vector<Op> table = ops();

static std::vector<std::vector<float>> patterns() {
    return {{1.f, -2.f, 0.5f, 3.f, -0.25f, 0.75f, 2.f, -1.5f, 0.125f, 1.25f, -3.f},
            {0.f},
            {0.5f, 0.f, -1.f, 0.f, 2.f, 0.25f, 0.25f},
            {0.9f, 0.3f, 0.6f, 0.1f, 0.7f, 0.45f, 0.2f},
            {1.f},
            {-4.f, 4.f, 1.f},
            {7.f, 7.f, 7.f, 7.001f, 6.9f},
            {0.001f, 10.f, -10.f, 0.5f, 0.25f, -0.0f}};
}

static bool compare(mc::Ctx &c, const T &t, const R &want, double tol, const std::string &path) {
    if (t->rowCount() != want.rows || t->columnCount() != want.cols || t->channelCount() != want.chs) {
        c.fail_key("shape @ " + path, "expected " + want.shape() + ", got " + std::to_string(t->rowCount()) + "x" + std::to_string(t->columnCount()) + "x" + std::to_string(t->channelCount()));
        return false;
    }
    if (t->size() != want.v.size() || t->elementsPerChannel() != want.rows * want.cols) c.fail_key("size @ " + path, std::to_string(t->size()));
    R got = read(t);
    if (!close(got, want, tol)) {
        c.fail_key("value @ " + path, "expected " + want.str() + ", got " + got.str());
        return false;
    }
    for (size_t i = 0; i < want.v.size(); i++)
        if (t->getValue(i) != got.v[i] && !(std::isnan(got.v[i]))) {
            c.fail_key("offset @ " + path, "element " + std::to_string(i));
            return false;
        }
    return true;
}

static void walk(mc::Ctx &c, const T &t, const R &a, int depth, int max_cost, double tol, const std::string &path, bool first_step = false, size_t limit = 150) {
    if (depth == 0) return;
    for (auto &op: table) {
        if (op.cost > max_cost) continue;
        exact_values() = first_step;
        if (!op.ok(a)) continue;
        R want = op.spec(a);
        if (!want.finite() || want.v.size() > limit) continue;
        // errors of earlier steps grow with the magnitude of the intermediate values
        double step_tol = std::max(op.tol, tol) * (1 + std::max(a.biggest(), want.biggest()) / 16) * (depth < 3 ? 2 : 1);
        std::string p = path + " | " + op.name;
        T next;
        try {
            next = op.impl(t, a);
            c.transition();
            if (!compare(c, next, want, step_tol, p)) continue;
        } catch (std::exception &e) {
            c.fail_key("exception @ " + p, e.what());
            continue;
        }
        c.state(state_hash(want));
        c.trace();
        if (depth > 1) walk(c, next, want, depth - 1, 1, step_tol, p);
    }
}

static void explore(mc::Ctx &c) {
    auto pats = patterns();
    size_t M = c.thorough ? 5 : 4, P = c.thorough ? 8 : 4;
    for (size_t rows = 1; rows <= M; rows++)
        for (size_t cols = 1; cols <= M; cols++)
            for (size_t chs = 1; chs <= 3; chs++)
                for (size_t p = 0; p < P; p++) {
                    R a = pattern(rows, cols, chs, pats[p]);
                    std::string d = "pattern " + std::to_string(p) + " " + a.shape();
                    if (!c.begin(d)) continue;
                    c.run([&] { walk(c, make(a), a, 1, 2, 1e-5, d, true); });
                }
    // shapes beyond the small ones: long, tall, wide and deep
    std::vector<std::array<size_t, 3>> large = {{1, 70, 1}, {70, 1, 1}, {1, 300, 1}, {9, 17, 2}, {17, 9, 3}, {33, 34, 1}, {3, 2, 9}, {1, 1, 12}, {6, 6, 5}, {64, 2, 1}, {2, 129, 1}};
    if (c.thorough) for (size_t x = 5; x <= 40; x += 5) { large.push_back({x, 41 - x, 1 + x % 3}); large.push_back({1, 16 * x, 1}); large.push_back({x, 1, x}); }
    for (auto &s: large)
        for (size_t p = 0; p < P; p++) {
            R a = pattern(s[0], s[1], s[2], pats[p]);
            std::string d = "pattern " + std::to_string(p) + " " + a.shape();
            if (!c.begin(d)) continue;
            c.run([&] { walk(c, make(a), a, 1, 2, 1e-5, d, true, 200000); });
        }
    std::vector<std::array<size_t, 3>> starts = {{1, 3, 1}, {2, 2, 1}, {3, 2, 2}, {3, 3, 1}, {2, 1, 1}, {1, 2, 2}};
    int depth = 2;
    if (c.thorough) depth = 3;
    else {
        starts.clear();
        for (size_t r = 1; r <= 4; r++) for (size_t k = 1; k <= 3; k++) for (size_t h = 1; h <= 2; h++) if (r * k * h <= 12) starts.push_back({r, k, h});
    }
    for (auto &s: starts)
        for (size_t p: std::vector<size_t>{0, 3})
            for (auto &first: table) {
                if (first.cost > 1) continue;
                if (!c.take()) continue;
                R a = pattern(s[0], s[1], s[2], pats[p]);
                std::string d = "pattern " + std::to_string(p) + " " + a.shape() + " | " + first.name;
                c.desc(d);
                exact_values() = true;
                if (!first.ok(a)) continue;
                R w = first.spec(a);
                if (!w.finite()) continue;
                c.run([&] {
                    T t = first.impl(make(a), a);
                    walk(c, t, w, depth, 1, std::max(first.tol, 1e-5) * (1 + w.biggest() / 16), d);
                });
            }
    // operands that do not fit must be refused, operands that fit must be accepted
    auto threw = [](const std::function<T()> &f) {
        try {
            f();
            return false;
        } catch (std::exception &) {
            return true;
        }
    };
    for (size_t i = 0; i < 18; i++)
        for (size_t j = 0; j < 18; j++) {
            size_t r1 = 1 + i % 3, c1 = 1 + i / 3 % 3, h1 = 1 + i / 9, r2 = 1 + j % 3, c2 = 1 + j / 3 % 3, h2 = 1 + j / 9;
            R ra = second(r1, c1, h1), rb = second(r2, c2, h2);
            if (!c.begin("operands " + ra.shape() + " and " + rb.shape())) continue;
            T a = make(ra), b = make(rb);
            bool eq = ra.same_shape(rb);
            c.check(threw([&] { return make_shared<AddTensorView>(a, b); }) == !eq, "add-shapes", "");
            c.check(threw([&] { return make_shared<SubtractTensorView>(a, b); }) == !eq, "subtract-shapes", "");
            c.check(threw([&] { return make_shared<ElementWiseMultiplyTensorView>(a, b); }) == !eq, "multiply-shapes", "");
            c.check(threw([&] { return make_shared<ElementWiseDivideTensorView>(a, b); }) == !eq, "divide-shapes", "");
            c.check(threw([&] { return make_shared<MatrixMultiplyTensorView>(a, b); }) == !(c1 == r2 && h1 == h2), "matmul-shapes", "");
            c.check(threw([&] { return make_shared<DotProductTensorView>(a, b); }) == !(r1 == 1 && r2 == 1 && h1 == 1 && h2 == 1 && c1 == c2), "dot-shapes", "");
            c.check(threw([&] { return make_shared<ReshapeTensorView>(a, r2, c2); }) == !(r1 * c1 == r2 * c2), "reshape-shapes", "");
            c.check(threw([&] { return make_shared<ReshapeTensorView>(a, r2, c2, h2); }) == !(r1 * c1 == r2 * c2 && h1 == h2), "reshape3-shapes", "");
            if (h1 == h2) c.check(threw([&] { return make_shared<ConcatWideTensorView>(a, b); }) == !(r1 == r2), "concat-shapes", "");
            for (size_t s = 0; s <= c1 + 1; s++)
                for (size_t e = 0; e <= c1 + 1; e++)
                    c.check(threw([&] { return make_shared<WindowTensorView>(a, s, e); }) == !(s < e && e <= c1), "window-range", std::to_string(s) + ".." + std::to_string(e));
            c.transition(9);
            c.trace();
        }
}

}

MC_MAIN
