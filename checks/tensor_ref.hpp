// Reference tensors: a plain array of doubles and the textbook definition of every operation.
#ifndef TENSOR_REF_HPP
#define TENSOR_REF_HPP

#include "mc.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_impls/tensor_from_xavier.hpp"
#include "types/tensor_views/absolute_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "types/tensor_views/channel_to_tensor_view.hpp"
#include "types/tensor_views/clip_tensor_view.hpp"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/concat_wide_tensor_view.h"
#include "types/tensor_views/diagonal_tensor_view.hpp"
#include "types/tensor_views/standardize_derivative_tensor_view.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "types/tensor_views/element_wise_multiply_tensor_view.hpp"
#include "types/tensor_views/exponential_tensor_view.hpp"
#include "types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "types/tensor_views/full_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/inverse_tensor_view.hpp"
#include "types/tensor_views/less_than_scalar_tensor_view.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/log_tensor_view.hpp"
#include "types/tensor_views/masked_select_tensor_view.hpp"
#include "types/tensor_views/matrix_divide_tensor_view.hpp"
#include "types/tensor_views/matrix_multiply_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/power_tensor_view.hpp"
#include "types/tensor_views/reshape_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/row_flatten_tensor_view.hpp"
#include "types/tensor_views/scalar_add_tensor_view.hpp"
#include "types/tensor_views/scalar_divide_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/scalar_subtract_tensor_view.hpp"
#include "types/tensor_views/softmax_derivative_tensor_view.hpp"
#include "types/tensor_views/sqrt_tensor_view.hpp"
#include "types/tensor_views/subtract_tensor_view.hpp"
#include "types/tensor_views/sum_channels_tensor_view.hpp"
#include "types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/value_transform_tensor_view.hpp"
#include "types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "types/tensor_views/window_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"

namespace harness {

namespace ref {
    using namespace happyml;
    using T = std::shared_ptr<BaseTensor>;

    struct R {
        size_t rows = 0, cols = 0, chs = 0;
        std::vector<double> v;   // channel, row, column

        R() = default;

        R(size_t r, size_t c, size_t h) : rows(r), cols(c), chs(h), v(r * c * h) {}

        double &at(size_t r, size_t c, size_t h) { return v.at((h * rows + r) * cols + c); }

        double at(size_t r, size_t c, size_t h) const { return v.at((h * rows + r) * cols + c); }

        bool same_shape(const R &o) const { return rows == o.rows && cols == o.cols && chs == o.chs; }

        std::string shape() const { return std::to_string(rows) + "x" + std::to_string(cols) + "x" + std::to_string(chs); }

        std::string str() const {
            std::string s = shape() + "[";
            for (size_t i = 0; i < v.size(); i++) {
                char b[32];
                snprintf(b, sizeof b, "%s%.7g", i ? "," : "", v[i]);
                s += b;
            }
            return s + "]";
        }

        double biggest() const {
            double m = 0;
            for (double x: v) m = std::max(m, std::fabs(x));
            return m;
        }

        bool finite(double limit = 1e5) const {
            for (double x: v) if (!std::isfinite(x) || std::fabs(x) > limit) return false;
            return true;
        }

        // no value within eps of x
        bool away(double x, double eps = 1e-3) const {
            for (double y: v) if (std::fabs(x - y) < eps) return false;
            return true;
        }
    };

    inline R read(const T &t) {
        R r(t->rowCount(), t->columnCount(), t->channelCount());
        for (size_t h = 0; h < r.chs; h++)
            for (size_t i = 0; i < r.rows; i++)
                for (size_t j = 0; j < r.cols; j++) r.at(i, j, h) = t->getValue(i, j, h);
        return r;
    }

    inline T make(const R &r) {
        std::vector<std::vector<std::vector<float>>> v(r.chs, std::vector<std::vector<float>>(r.rows, std::vector<float>(r.cols)));
        for (size_t h = 0; h < r.chs; h++)
            for (size_t i = 0; i < r.rows; i++)
                for (size_t j = 0; j < r.cols; j++) v[h][i][j] = (float) r.at(i, j, h);
        return make_shared<FullTensor>(v);
    }

    // values are floats; the reference starts from the same floats
    inline R pattern(size_t rows, size_t cols, size_t chs, const std::vector<float> &alpha, size_t rot = 0) {
        R r(rows, cols, chs);
        for (size_t i = 0; i < r.v.size(); i++) r.v[i] = alpha[(i + rot) % alpha.size()];
        return r;
    }

    inline bool close(const R &got, const R &want, double tol) {
        if (!got.same_shape(want)) return false;
        for (size_t i = 0; i < want.v.size(); i++) {
            double e = std::fabs(got.v[i] - want.v[i]);
            if (!(e <= tol * std::max(1.0, std::fabs(want.v[i])))) return false;
        }
        return true;
    }

    inline uint64_t state_hash(const R &r) {
        std::vector<long long> k{(long long) r.rows, (long long) r.cols, (long long) r.chs};
        for (double x: r.v) k.push_back(std::llround(x * 1024));
        return mc::hash(k.data(), k.size() * sizeof(k[0]));
    }

    template<class F>
    R map(const R &a, F f) {
        R r = a;
        for (auto &x: r.v) x = f(x);
        return r;
    }

    template<class F>
    R zip(const R &a, const R &b, F f) {
        R r = a;
        for (size_t i = 0; i < r.v.size(); i++) r.v[i] = f(a.v[i], b.v[i]);
        return r;
    }

    template<class F>
    R build(size_t rows, size_t cols, size_t chs, F f) {
        R r(rows, cols, chs);
        for (size_t h = 0; h < chs; h++)
            for (size_t i = 0; i < rows; i++)
                for (size_t j = 0; j < cols; j++) r.at(i, j, h) = f(i, j, h);
        return r;
    }

    inline R pad(const R &a, size_t t, size_t b, size_t l, size_t rr) {
        return build(a.rows + t + b, a.cols + l + rr, a.chs, [&](size_t i, size_t j, size_t h) {
            return i >= t && i < t + a.rows && j >= l && j < l + a.cols ? a.at(i - t, j - l, h) : 0.0;
        });
    }

    inline R rot180(const R &a) { return build(a.rows, a.cols, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(a.rows - 1 - i, a.cols - 1 - j, h); }); }

    inline R correlate(const R &a, const R &k) {
        return build(a.rows - k.rows + 1, a.cols - k.cols + 1, a.chs, [&](size_t i, size_t j, size_t h) {
            double s = 0;
            for (size_t p = 0; p < k.rows; p++) for (size_t q = 0; q < k.cols; q++) s += a.at(i + p, j + q, h) * k.at(p, q, h);
            return s;
        });
    }

    inline R matmul(const R &a, const R &b) {
        return build(a.rows, b.cols, a.chs, [&](size_t i, size_t j, size_t h) {
            double s = 0;
            for (size_t k = 0; k < a.cols; k++) s += a.at(i, k, h) * b.at(k, j, h);
            return s;
        });
    }

    // Cramer's rule for n <= 3
    inline double det(const R &a, size_t h) {
        if (a.rows == 1) return a.at(0, 0, h);
        if (a.rows == 2) return a.at(0, 0, h) * a.at(1, 1, h) - a.at(0, 1, h) * a.at(1, 0, h);
        double d = 0;
        for (int j = 0; j < 3; j++)
            d += a.at(0, j, h) * (a.at(1, (j + 1) % 3, h) * a.at(2, (j + 2) % 3, h) - a.at(1, (j + 2) % 3, h) * a.at(2, (j + 1) % 3, h));
        return d;
    }

    inline R inverse(const R &a) {
        return build(a.rows, a.cols, a.chs, [&](size_t i, size_t j, size_t h) {
            double d = det(a, h);
            if (a.rows == 1) return 1 / d;
            if (a.rows == 2) {
                double s = (i + j) % 2 ? -1 : 1;
                return s * a.at(1 - j, 1 - i, h) / d;
            }
            auto m = [&](size_t r, size_t c) { return a.at(r % 3, c % 3, h); };
            return (m(j + 1, i + 1) * m(j + 2, i + 2) - m(j + 1, i + 2) * m(j + 2, i + 1)) / d;
        });
    }

    inline double mean(const R &a) {
        double s = 0;
        for (double x: a.v) s += x;
        return s / a.v.size();
    }

    inline double stddev(const R &a) {
        double m = mean(a), s = 0;
        for (double x: a.v) s += (x - m) * (x - m);
        return std::sqrt(s / a.v.size());
    }

    struct Op {
        std::string name;
        std::function<bool(const R &)> ok;       // shapes and values the definition covers
        std::function<T(const T &, const R &)> impl;   // the shape of the operand comes from the reference
        std::function<R(const R &)> spec;
        double tol = 1e-4;
        int cost = 1;
    };

    inline std::vector<float> &second_alpha() {
        static std::vector<float> a{0.5f, -1.25f, 2.f, 0.75f, -0.5f, 1.5f, 3.f, -2.f, 0.25f, 1.f, -0.75f};
        return a;
    }

    // second operand: depends on the shape only
    inline R second(size_t rows, size_t cols, size_t chs, size_t rot = 0) { return pattern(rows, cols, chs, second_alpha(), rot + rows + 2 * cols); }

    // true while the operand holds exact (not computed) values, so that a value may lie exactly on a threshold
    inline bool &exact_values() {
        static bool b = true;
        return b;
    }

    inline std::vector<Op> ops() {
        auto any = [](const R &) { return true; };
        std::vector<Op> o;
        auto unary = [&](const char *n, std::function<bool(const R &)> ok, std::function<T(const T &)> i, std::function<double(double)> f) {
            o.push_back({n, ok, [i](const T &t, const R &) { return i(t); }, [f](const R &a) { return map(a, f); }});
        };
        unary("abs", any, [](const T &t) { return make_shared<AbsoluteTensorView>(t); }, [](double x) { return std::fabs(x); });
        unary("noop", any, [](const T &t) { return make_shared<TensorNoOpView>(t); }, [](double x) { return x; });
        unary("clip", any, [](const T &t) { return make_shared<ClipTensorView>(t, -0.6f, 1.1f); }, [](double x) { return std::min(std::max(x, (double) -0.6f), (double) 1.1f); });
        unary("x+3.5", any, [](const T &t) { return make_shared<ScalarAddTensorView>(t, 3.5f); }, [](double x) { return x + 3.5; });
        unary("x-2.5", any, [](const T &t) { return make_shared<ScalarSubtractTensorView>(t, 2.5f); }, [](double x) { return x - 2.5; });
        unary("2.5-x", any, [](const T &t) { return make_shared<ScalarSubtractTensorView>(2.5f, t); }, [](double x) { return 2.5 - x; });
        unary("x*-1.5", any, [](const T &t) { return make_shared<ScalarMultiplyTensorView>(t, -1.5f); }, [](double x) { return x * -1.5; });
        unary("1.5*x", any, [](const T &t) { return make_shared<ScalarMultiplyTensorView>(1.5f, t); }, [](double x) { return x * 1.5; });
        unary("x/4", any, [](const T &t) { return make_shared<ScalarDivideTensorView>(t, 4.f); }, [](double x) { return x / 4; });
        unary("2/x", [](const R &a) { return a.away(0, 0.05); }, [](const T &t) { return make_shared<ScalarDivideTensorView>(2.f, t); }, [](double x) { return 2 / x; });
        unary("exp", [](const R &a) { return a.biggest() < 6; }, [](const T &t) { return make_shared<ExponentialTensorView>(t); }, [](double x) { return std::exp(x); });
        unary("x^2", [](const R &a) { return a.biggest() < 50; }, [](const T &t) { return make_shared<PowerTensorView>(t, 2.f); }, [](double x) { return x * x; });
        unary("x^3", [](const R &a) { return a.biggest() < 20; }, [](const T &t) { return make_shared<PowerTensorView>(t, 3.f); }, [](double x) { return x * x * x; });
        unary("sqrt", [](const R &a) {
            for (double x: a.v) if (x < 0.01 && (x != 0 || !exact_values())) return false;
            return true;
        }, [](const T &t) { return make_shared<SqrtTensorView>(t); }, [](double x) { return std::sqrt(x); });
        unary("log", [](const R &a) {
            for (double x: a.v) if (std::fabs(x) < 0.01) return false;
            return true;
        }, [](const T &t) { return make_shared<LogTensorView>(t); }, [](double x) { return std::log(std::min(std::max(x, (double) 1e-8f), 1.0)); });
        unary("log2", [](const R &a) {
            for (double x: a.v) if (x < 0.01) return false;
            return true;
        }, [](const T &t) { return make_shared<Log2TensorView>(t); }, [](double x) { return std::log2(x); });
        unary("inverse-each", [](const R &a) { return a.away(0, 0.05); }, [](const T &t) { return make_shared<ElementWiseInverseTensorView>(t); }, [](double x) { return 1 / x; });
        unary("round", [](const R &a) {
            for (double x: a.v) {
                double f = x - std::floor(x);
                if (std::fabs(f - 0.5) < 1e-3 && (f != 0.5 || !exact_values())) return false;
            }
            return true;
        }, [](const T &t) { return make_shared<RoundTensorView>(t); }, [](double x) { return std::round(x); });
        unary("x<0.5", [](const R &a) {
            for (double x: a.v) if (std::fabs(x - 0.5) < 1e-3 && (x != 0.5 || !exact_values())) return false;
            return true;
        }, [](const T &t) { return make_shared<LessThanScalarTensorView>(t, 0.5f); }, [](double x) { return x < 0.5 ? 1.0 : 0.0; });
        unary("fn", any, [](const T &t) { return make_shared<ValueTransformTensorView>(t, [](float x) { return x * 2 + 1; }); }, [](double x) { return x * 2 + 1; });
        unary("fn2", any, [](const T &t) { return make_shared<ValueTransformWithDoubleTensorView>(t, [](float x, double d) { return (float) (x * d); }, 0.75); }, [](double x) { return x * 0.75; });
        unary("denormalize", any, [](const T &t) { return make_shared<DenormalizeTensorView>(t, -2.f, 6.f); }, [](double x) { return x * 8 - 2; });
        unary("normalize-by", any, [](const T &t) { return make_shared<NormalizeTensorView>(t, -2.f, 6.f); }, [](double x) { return (x + 2) / 8; });
        unary("normalize-const", any, [](const T &t) { return make_shared<NormalizeTensorView>(t, 1.f, 1.f); }, [](double x) { return x - 1; });
        unary("unstandardize", any, [](const T &t) { return make_shared<UnstandardizeTensorView>(t, -2.f, 0.5f); }, [](double x) { return x * 0.5 - 2; });
        unary("standardize-by", any, [](const T &t) { return make_shared<StandardizeTensorView>(t, -2.f, 0.5f); }, [](double x) { return (x + 2) / 0.5; });

        auto shaped = [&](const char *n, std::function<bool(const R &)> ok, std::function<T(const T &, const R &)> i, std::function<R(const R &)> s, double tol = 1e-4) { o.push_back({n, ok, i, s, tol}); };
        shaped("normalize", [](const R &a) {
            double lo = *std::min_element(a.v.begin(), a.v.end()), hi = *std::max_element(a.v.begin(), a.v.end());
            return (hi == lo && exact_values()) || hi - lo > 0.05;
        }, [](const T &t, const R &) { return make_shared<NormalizeTensorView>(t); }, [](const R &a) {
            double lo = *std::min_element(a.v.begin(), a.v.end()), hi = *std::max_element(a.v.begin(), a.v.end());
            return map(a, [&](double x) { return hi == lo ? 0.0 : (x - lo) / (hi - lo); });
        }, 1e-3);
        shaped("standardize", [](const R &a) { return (stddev(a) == 0 && exact_values()) || stddev(a) > 0.05; }, [](const T &t, const R &) { return make_shared<StandardizeTensorView>(t); }, [](const R &a) {
            double m = mean(a), s = stddev(a);
            return map(a, [&](double x) { return s == 0 ? 0.0 : (x - m) / s; });
        }, 1e-3);
        shaped("transpose", any, [](const T &t, const R &) { return make_shared<TransposeTensorView>(t); }, [](const R &a) { return build(a.cols, a.rows, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(j, i, h); }); });
        shaped("rotate180", any, [](const T &t, const R &) { return make_shared<Rotate180TensorView>(t); }, [](const R &a) { return rot180(a); });
        shaped("flatten-row", any, [](const T &t, const R &) { return make_shared<RowFlattenTensorView>(t); }, [](const R &a) {
            R r(1, a.v.size(), 1);
            r.v = a.v;
            return r;
        });
        shaped("flatten-column", any, [](const T &t, const R &) { return make_shared<ColumnFlattenTensorView>(t); }, [](const R &a) {
            R r(a.v.size(), 1, 1);
            r.v = a.v;
            return r;
        });
        shaped("reshape-swap", any, [](const T &t, const R &a) { return make_shared<ReshapeTensorView>(t, a.cols, a.rows); }, [](const R &a) {
            R r(a.cols, a.rows, a.chs);
            r.v = a.v;
            return r;
        });
        shaped("reshape-row", any, [](const T &t, const R &a) { return make_shared<ReshapeTensorView>(t, 1, a.cols * a.rows, a.chs); }, [](const R &a) {
            R r(1, a.cols * a.rows, a.chs);
            r.v = a.v;
            return r;
        });
        shaped("pad", [](const R &a) { return a.v.size() < 40; }, [](const T &t, const R &) { return make_shared<ZeroPadTensorView>(t, 1, 0, 2, 1); }, [](const R &a) { return pad(a, 1, 0, 2, 1); });
        shaped("pad-other", [](const R &a) { return a.v.size() < 40; }, [](const T &t, const R &) { return make_shared<ZeroPadTensorView>(t, 0, 3, 0, 2); }, [](const R &a) { return pad(a, 0, 3, 0, 2); });
        shaped("window-middle", [](const R &a) { return a.cols > 2; }, [](const T &t, const R &a) { return make_shared<WindowTensorView>(t, a.cols / 3, a.cols - a.cols / 3); },
               [](const R &a) { size_t from = a.cols / 3; return build(a.rows, a.cols - 2 * from, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(i, j + from, h); }); });
        shaped("diagonal", [](const R &a) { return a.rows == 1 || a.cols == 1; }, [](const T &t, const R &) { return make_shared<DiagonalTensorView>(t); }, [](const R &a) {
            size_t n = a.rows * a.cols;
            return build(n, n, a.chs, [&](size_t i, size_t j, size_t h) { return i == j ? a.v[h * n + i] : 0.0; });
        });
        // slope of standardization: d_i = (g_i - mean(g) - s_i * mean(g * s)) / deviation
        shaped("standardize-derivative", [](const R &a) { return a.biggest() < 50; }, [](const T &t, const R &a) {
            R in = second(a.rows, a.cols, a.chs);
            double m = mean(in), d = stddev(in);
            return make_shared<StandardizeDerivativeTensorView>(t, make(in), (float) m, d == 0 ? 1.f : (float) d);
        }, [](const R &a) {
            R in = second(a.rows, a.cols, a.chs);
            double m = mean(in), d = stddev(in);
            if (d == 0) d = 1;
            R st = map(in, [&](double x) { return (x - m) / d; });
            double g = mean(a), gs = mean(zip(a, st, [](double x, double y) { return x * y; }));
            return zip(a, st, [&](double x, double y) { return (x - g - y * gs) / d; });
        }, 1e-3);
        shaped("window-tail", [](const R &a) { return a.cols > 1; }, [](const T &t, const R &a) { return make_shared<WindowTensorView>(t, 1, a.cols); },
               [](const R &a) { return build(a.rows, a.cols - 1, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(i, j + 1, h); }); });
        shaped("window-head", [](const R &a) { return a.cols > 1; }, [](const T &t, const R &a) { return make_shared<WindowTensorView>(t, 0, a.cols - 1); },
               [](const R &a) { return build(a.rows, a.cols - 1, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(i, j, h); }); });
        shaped("last-channel", any, [](const T &t, const R &a) { return make_shared<ChannelToTensorView>(t, a.chs - 1); },
               [](const R &a) { return build(a.rows, a.cols, 1, [&](size_t i, size_t j, size_t) { return a.at(i, j, a.chs - 1); }); });
        shaped("sum-channels", any, [](const T &t, const R &) { return make_shared<SumChannelsTensorView>(t); }, [](const R &a) {
            return build(a.rows, a.cols, 1, [&](size_t i, size_t j, size_t) {
                double s = 0;
                for (size_t h = 0; h < a.chs; h++) s += a.at(i, j, h);
                return s;
            });
        });
        shaped("sum-to-channel", any, [](const T &t, const R &) { return make_shared<SumToChannelTensorView>(t, 1, 2); }, [](const R &a) {
            return build(a.rows, a.cols, 2, [&](size_t i, size_t j, size_t k) {
                double s = 0;
                for (size_t h = 0; h < a.chs; h++) s += a.at(i, j, h);
                return k == 1 ? s : 0.0;
            });
        });
        shaped("inverse", [](const R &a) {
            if (a.rows != a.cols || a.rows > 3 || a.biggest() > 20) return false;
            for (size_t h = 0; h < a.chs; h++) {
                if (std::fabs(det(a, h)) < 0.2) return false;
            }
            return true;
        }, [](const T &t, const R &) { return make_shared<InverseTensorView>(t); }, [](const R &a) { return inverse(a); }, 3e-3);

        // binary operations with a fixed second operand, on either side
        auto binary = [&](const char *n, std::function<bool(const R &)> ok, std::function<R(const R &)> other, std::function<T(const T &, const T &)> i,
                          std::function<R(const R &, const R &)> s, bool both, double tol = 1e-4) {
            o.push_back({std::string("A ") + n + " B", ok, [=](const T &t, const R &a) { return i(t, make(other(a))); }, [=](const R &a) { return s(a, other(a)); }, tol});
            if (both) o.push_back({std::string("B ") + n + " A", ok, [=](const T &t, const R &a) { return i(make(other(a)), t); }, [=](const R &a) { return s(other(a), a); }, tol});
        };
        auto alike = [](const R &a) { return second(a.rows, a.cols, a.chs); };
        binary("add", any, alike, [](const T &x, const T &y) { return make_shared<AddTensorView>(x, y); }, [](const R &a, const R &b) { return zip(a, b, [](double x, double y) { return x + y; }); }, true);
        binary("subtract", any, alike, [](const T &x, const T &y) { return make_shared<SubtractTensorView>(x, y); }, [](const R &a, const R &b) { return zip(a, b, [](double x, double y) { return x - y; }); }, true);
        binary("multiply-each", any, alike, [](const T &x, const T &y) { return make_shared<ElementWiseMultiplyTensorView>(x, y); }, [](const R &a, const R &b) { return zip(a, b, [](double x, double y) { return x * y; }); }, true);
        binary("divide-each", [](const R &a) { return a.away(0, 0.05); }, alike, [](const T &x, const T &y) { return make_shared<ElementWiseDivideTensorView>(x, y); }, [](const R &a, const R &b) { return zip(a, b, [](double x, double y) { return x / y; }); }, true);
        binary("concat", any, [](const R &a) { return second(a.rows, a.cols + 1, a.chs); }, [](const T &x, const T &y) { return make_shared<ConcatWideTensorView>(x, y); }, [](const R &a, const R &b) {
            return build(a.rows, a.cols + b.cols, a.chs, [&](size_t i, size_t j, size_t h) { return j < a.cols ? a.at(i, j, h) : b.at(i, j - a.cols, h); });
        }, true);
        binary("matmul", any, [](const R &a) { return second(a.cols, 2, a.chs); }, [](const T &x, const T &y) { return make_shared<MatrixMultiplyTensorView>(x, y); }, matmul, false);
        o.push_back({"B matmul A", any, [](const T &t, const R &a) { return make_shared<MatrixMultiplyTensorView>(make(second(2, a.rows, a.chs)), t); }, [](const R &a) { return matmul(second(2, a.rows, a.chs), a); }});
        binary("dot", [](const R &a) { return a.rows == 1 && a.chs == 1; }, alike, [](const T &x, const T &y) { return make_shared<DotProductTensorView>(x, y); }, [](const R &a, const R &b) {
            R r(1, 1, 1);
            for (size_t i = 0; i < a.v.size(); i++) r.v[0] += a.v[i] * b.v[i];
            return r;
        }, true);
        o.push_back({"A outer B", [](const R &a) { return a.cols == 1; }, [](const T &t, const R &a) { return make_shared<OuterProductTensorView>(t, make(second(1, 3, a.chs))); },
                     [](const R &a) { R b = second(1, 3, a.chs); return build(a.rows, 3, a.chs, [&](size_t i, size_t j, size_t h) { return a.at(i, 0, h) * b.at(0, j, h); }); }});
        o.push_back({"A matrix-divide B", [](const R &a) { return a.rows == a.cols && a.rows <= 3; },
                     [](const T &t, const R &a) {
                         R b = second(a.rows, a.rows, a.chs);
                         for (size_t h = 0; h < a.chs; h++) for (size_t i = 0; i < a.rows; i++) b.at(i, i, h) += 6;
                         return make_shared<MatrixDivideTensorView>(t, make(b));
                     },
                     [](const R &a) {
                         R b = second(a.rows, a.rows, a.chs);
                         for (size_t h = 0; h < a.chs; h++) for (size_t i = 0; i < a.rows; i++) b.at(i, i, h) += 6;
                         return matmul(a, inverse(b));
                     }, 1e-3});
        o.push_back({"select", [](const R &a) {
            for (double x: a.v) if (std::fabs(x - 0.25) < 1e-3 && (x != 0.25 || !exact_values())) return false;
            return true;
        }, [](const T &t, const R &a) { return make_shared<MaskedSelectTensorView>(t, make(second(a.rows, a.cols, a.chs)), make(second(a.rows, a.cols, a.chs, 4)), 0.25f); },
                     [](const R &a) {
                         R x = second(a.rows, a.cols, a.chs), y = second(a.rows, a.cols, a.chs, 4), r = a;
                         for (size_t i = 0; i < r.v.size(); i++) r.v[i] = a.v[i] > 0.25 ? x.v[i] : y.v[i];
                         return r;
                     }});
        o.push_back({"select-from", any, [](const T &t, const R &a) { return make_shared<MaskedSelectTensorView>(make(second(a.rows, a.cols, a.chs)), make_shared<ScalarAddTensorView>(t, 1.f), t); },
                     [](const R &a) {
                         R m = second(a.rows, a.cols, a.chs), r = a;
                         for (size_t i = 0; i < r.v.size(); i++) r.v[i] = m.v[i] > 0 ? a.v[i] + 1 : a.v[i];
                         return r;
                     }});
        for (size_t kr = 1; kr <= 5; kr++)
            for (size_t kc = 1; kc <= 5; kc++) {
                if (kr != kc && kr > 3 && kc > 3) continue;
                std::string k = std::to_string(kr) + "x" + std::to_string(kc);
                int cost = kr == 2 && (kc == 2 || kc == 3) ? 1 : kr == 4 && kc == 4 ? 1 : 2;
                o.push_back({"valid-correlate " + k, [=](const R &a) { return a.rows >= kr && a.cols >= kc; },
                             [=](const T &t, const R &a) { return make_shared<Valid2DCrossCorrelationTensorView>(t, make(second(kr, kc, a.chs))); },
                             [=](const R &a) { return correlate(a, second(kr, kc, a.chs)); }, 1e-4, cost});
                o.push_back({"full-correlate " + k, [](const R &a) { return a.v.size() < 40; },
                             [=](const T &t, const R &a) { return make_shared<Full2DCrossCorrelationTensorView>(t, make(second(kr, kc, a.chs))); },
                             [=](const R &a) { return correlate(pad(a, kr - 1, kr - 1, kc - 1, kc - 1), second(kr, kc, a.chs)); }, 1e-4, cost});
                o.push_back({"full-convolve " + k, [](const R &a) { return a.v.size() < 40; },
                             [=](const T &t, const R &a) { return make_shared<Full2DConvolveTensorView>(t, make(second(kr, kc, a.chs))); },
                             [=](const R &a) { return correlate(pad(a, kr - 1, kr - 1, kc - 1, kc - 1), rot180(second(kr, kc, a.chs))); }, 1e-4, cost});
            }
        shaped("materialize", any, [](const T &t, const R &) { return materializeTensor(t); }, [](const R &a) { return a; });
        shaped("materialize32", any, [](const T &t, const R &) { return materializeTensor(t, 32); }, [](const R &a) { return a; });
        return o;
    }
}
}

#endif
