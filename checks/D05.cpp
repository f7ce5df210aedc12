// Binary dataset files: every small layout of columns, written with the real writer and read back with the real reader,
// in every row order and with other normalization metadata.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"

namespace harness {

using namespace happyml;
using Meta = std::shared_ptr<BinaryColumnMetadata>;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "D05";
    i.rule = "case = (columns: purpose, shape, labels, name, normalization; number of rows); the file is written row by row and read back: header fields, row count, every element of every "
             "row, rows addressed in every order (two reads), past-the-end reads refused; with renormalization metadata every element is compared with the arithmetic definition; "
             "duplicates of the given part are dropped and only those. state = distinct file; transition = one row written or read";
    i.bounds_quick = {"1..3 given and 0..2 expected columns out of 6 column kinds", "0..3 rows", "5 renormalization patterns rotated over the columns", "duplicate filter: all sequences of 4 rows over 3 given x 2 expected values, caches of 1..3 and 100000", "every truncation; every header byte changed in 11 ways", "all pairs of lists of up to 3 labels out of 4; up to 200 labels of up to 1000 bytes", "files of up to 128 GB (with holes), rows around every power of two"};
    i.bounds_thorough = {"as quick with all 5^n renormalization patterns and 0..4 rows", "duplicate filter: sequences of 6 rows"};
    return i;
}

struct Kind {
    char purpose;
    size_t r, c, ch;
    std::vector<std::string> labels;
    const char *name;
};
static const std::vector<Kind> kinds = {
        {'N', 1, 1, 1, {}, "number"}, {'N', 2, 3, 2, {}, ""}, {'L', 1, 3, 1, {"a", "", "long label, with \"stuff\"\n"}, "label"},
        {'I', 2, 2, 3, {}, "image"}, {'T', 3, 1, 1, {}, "text:column"}, {'N', 1, 2, 1, {}, "n2"}};
struct Norm {
    bool s;
    float mean, sd;
    bool n;
    float lo, hi;
};
static const std::vector<Norm> norms = {{false, 0, 0, false, 0, 0}, {true, 2.5f, 1.5f, false, 0, 0}, {false, 0, 0, true, -3, 5}, {true, -1, 4, true, -2, 2.5f}, {false, 7, 3, false, 1, 2}};

static Meta make(const Kind &k, const Norm &n, size_t src) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    m->purpose = k.purpose;
    m->is_standardized = n.s;
    m->mean = n.mean;
    m->standard_deviation = n.sd;
    m->is_normalized = n.n;
    m->min_value = n.lo;
    m->max_value = n.hi;
    m->source_column_count = src;
    m->rows = k.r;
    m->columns = k.c;
    m->channels = k.ch;
    m->ordered_labels = k.labels;
    m->name = k.name;
    return m;
}

static std::vector<float> tensor_values(const Kind &k, size_t row, size_t col_no) {
    std::vector<float> v;
    for (size_t i = 0; i < k.r * k.c * k.ch; i++) {
        if (k.purpose == 'L') v.push_back(i == (row + col_no) % 3 ? 1.f : 0.f);
        else if (k.purpose == 'I') v.push_back((float) ((i * 37 + row * 50 + col_no * 11) % 256) / 255.f);
        else v.push_back((float) row * 1.25f - (float) i * 0.375f + (float) col_no * 3);
    }
    return v;
}

static T make_tensor(const Kind &k, const std::vector<float> &v) {
    std::vector<std::vector<std::vector<float>>> x(k.ch, std::vector<std::vector<float>>(k.r, std::vector<float>(k.c)));
    size_t i = 0;
    for (auto &a: x) for (auto &b: a) for (auto &e: b) e = v[i++];
    if (k.purpose == 'I') return pixelTensor(x);
    return tensor(x);
}

static std::vector<float> flat(const T &t) {
    std::vector<float> v;
    for (size_t ch = 0; ch < t->channelCount(); ch++)
        for (size_t r = 0; r < t->rowCount(); r++)
            for (size_t col = 0; col < t->columnCount(); col++) v.push_back(t->getValue(r, col, ch));
    return v;
}

static float renorm(float v, const Norm &a, const Norm &b) {
    double x = v;
    if (a.n) x = x * ((double) a.hi - a.lo) + a.lo;
    if (a.s) x = x * a.sd + a.mean;
    if (b.s) x = (x - b.mean) / b.sd;
    if (b.n) x = (x - b.lo) / ((double) b.hi - b.lo);
    return (float) x;
}

static bool close(float a, float b, float tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(a)); }

static std::string same_meta(const Meta &a, const Meta &b) {
    auto eq = [](float x, float y) { return memcmp(&x, &y, 4) == 0; };
    if (a->purpose != b->purpose) return "purpose";
    if (a->is_standardized != b->is_standardized || !eq(a->mean, b->mean) || !eq(a->standard_deviation, b->standard_deviation)) return "standardization";
    if (a->is_normalized != b->is_normalized || !eq(a->min_value, b->min_value) || !eq(a->max_value, b->max_value)) return "normalization";
    if (a->source_column_count != b->source_column_count) return "source column count";
    if (a->rows != b->rows || a->columns != b->columns || a->channels != b->channels) return "shape";
    if (a->ordered_labels != b->ordered_labels) return "labels";
    if (a->name != b->name) return "name";
    return "";
}

static void explore(mc::Ctx &c) {
    std::string p = "d.bin";
    for (int ng = 1; ng <= 3; ng++)
        for (int ne = 0; ne <= 2; ne++)
            mc::sequences((int) kinds.size(), ng + ne, [&](const std::vector<int> &v) {
                if (!c.take()) return;
                std::string what;
                for (int i = 0; i < ng + ne; i++) what += std::string(i < ng ? " given " : " expected ") + kinds[v[i]].purpose + std::to_string(v[i]);
                c.desc("columns" + what);
                c.run([&]() {
                    int n = ng + ne;
                    auto one = [&](const std::vector<int> &from, const std::vector<int> &to, int rows) {
                        std::vector<Meta> mg, me, rg, re;
                        for (int i = 0; i < n; i++) {
                            (i < ng ? mg : me).push_back(make(kinds[v[i]], norms[from[i]], i + 1));
                            (i < ng ? rg : re).push_back(make(kinds[v[i]], norms[to[i]], i + 1));
                        }
                        {
                            BinaryDatasetWriter w(p, mg, me, 0);
                            for (int r = 0; r < rows; r++) {
                                std::vector<T> g, e;
                                for (int i = 0; i < n; i++) (i < ng ? g : e).push_back(make_tensor(kinds[v[i]], tensor_values(kinds[v[i]], r, i)));
                                if (!w.writeRow(g, e)) c.fail_stop("write", "row refused without a duplicate filter");
                            }
                            w.close();
                        }
                        c.state(mc::hash(mc::slurp(p)));
                        std::string id = "rows " + std::to_string(rows) + " normalization " + std::to_string(from[0]) + "->" + std::to_string(to[0]);
                        for (int re_on = 0; re_on < 2; re_on++) {
                            BinaryDatasetReader rd = re_on ? BinaryDatasetReader(p, rg, re) : BinaryDatasetReader(p);
                            c.trace();
                            if (rd.rowCount() != (size_t) rows) c.fail_stop("row count", id + ": read " + std::to_string(rd.rowCount()));
                            if (rd.get_given_column_count() != (size_t) ng || rd.get_expected_column_count() != (size_t) ne) c.fail_stop("column count", id);
                            for (int i = 0; i < n; i++) {
                                auto bad = same_meta(i < ng ? mg[i] : me[i - ng], i < ng ? rd.get_given_metadata(i) : rd.get_expected_metadata(i - ng));
                                if (!bad.empty()) c.fail_stop("header", id + " column " + std::to_string(i) + ": " + bad + " differs");
                            }
                            auto check_row = [&](int r) {
                                auto row = rd.readRow(r);
                                c.transition();
                                if (row.first.size() != (size_t) ng || row.second.size() != (size_t) ne) c.fail_stop("row", id + " number of tensors");
                                for (int i = 0; i < n; i++) {
                                    auto &k = kinds[v[i]];
                                    auto t = i < ng ? row.first[i] : row.second[i - ng];
                                    if (t->rowCount() != k.r || t->columnCount() != k.c || t->channelCount() != k.ch) c.fail_stop("row", id + " shape of column " + std::to_string(i));
                                    auto got = flat(t);
                                    auto want = tensor_values(k, r, i);
                                    if (re_on) for (auto &x: want) x = renorm(x, norms[from[i]], norms[to[i]]);
                                    float tol = re_on ? 1e-5f : (k.purpose == 'I' ? 1e-6f : 0.f);
                                    for (size_t z = 0; z < want.size(); z++)
                                        if (!close(want[z], got[z], tol))
                                            c.fail_stop(re_on ? "renormalized row" : "row", id + " row " + std::to_string(r) + " column " + std::to_string(i) + ": read " + mc::show(got) + " expected " + mc::show(want));
                                }
                            };
                            for (int a = 0; a < rows; a++) for (int b = 0; b < rows; b++) check_row(a), check_row(b);
                            bool refused = false;
                            try { rd.readRow(rows); } catch (std::runtime_error &) { refused = true; }
                            if (!refused) c.fail_stop("past the end", id + ": row " + std::to_string(rows) + " was read");
                        }
                        // metadata of another number of columns is refused
                        auto more = rg;
                        more.push_back(rg[0]);
                        bool refused = false;
                        try { BinaryDatasetReader rd(p, more, re); } catch (std::runtime_error &) { refused = true; }
                        if (!refused) c.fail_stop("renormalization", id + ": metadata of another number of columns is accepted");
                    };
                    int maxrows = c.thorough ? 4 : 3;
                    for (int rows = 0; rows <= maxrows; rows++)
                        for (int a = 0; a < (int) norms.size(); a++)
                            for (int b = 0; b < (int) norms.size(); b++) {
                                if (rows == 0 && a) continue;
                                std::vector<int> f, t;
                                for (int i = 0; i < n; i++) f.push_back((a + i) % 5), t.push_back((b + 2 * i) % 5);
                                one(f, t, rows);
                            }
                    if (c.thorough && n <= 3)
                        mc::sequences(5, n, [&](const std::vector<int> &f) { mc::sequences(5, n, [&](const std::vector<int> &t) { one(f, t, 2); }); });
                });
            });
    // the duplicate filter looks at the given part only and keeps the first
    int len = c.thorough ? 6 : 4;
    std::vector<std::vector<float>> gv = {{1.f, 2.f}, {1.f, std::nextafter(2.f, 3.f)}, {2.f, 1.f}};
    mc::sequences(6, len, [&](const std::vector<int> &v) {
        if (!c.take()) return;
        std::string what;
        for (int x: v) what += " " + std::to_string(x / 2) + "/" + std::to_string(x % 2);
        c.desc("duplicate filter rows" + what);
        c.run([&]() {
            for (int split = 0; split < 2; split++) {           // one 1x2 column or two 1x1 columns
                Kind k1 = {'N', 1, 1, 1, {}, "x"}, k2 = {'N', 1, 2, 1, {}, "x"};
                for (size_t cap: {(size_t) 1, (size_t) 2, (size_t) 3, (size_t) 100000}) {
                    std::vector<Meta> mg = split ? std::vector<Meta>{make(k1, norms[0], 1), make(k1, norms[0], 1)} : std::vector<Meta>{make(k2, norms[0], 2)}, me = {make(k1, norms[0], 1)};
                    std::vector<std::pair<int, int>> want;
                    {
                        BinaryDatasetWriter w(p, mg, me, cap);
                        std::set<int> seen;
                        std::vector<int> recent;
                        for (int x: v) {
                            int gi = x / 2;
                            auto &g = gv[gi];
                            std::vector<T> gt = split ? std::vector<T>{make_tensor(k1, {g[0]}), make_tensor(k1, {g[1]})} : std::vector<T>{make_tensor(k2, g)};
                            bool wrote = w.writeRow(gt, {make_tensor(k1, {(float) (x % 2)})});
                            c.transition();
                            bool dup = seen.count(gi);
                            // a row never written must be written; with room for every distinct row a duplicate must be dropped;
                            // an adjacent duplicate must always be dropped
                            if (!dup && !wrote) c.fail_stop("duplicates", "a new row was dropped, cache " + std::to_string(cap));
                            if (dup && wrote && (cap >= 3 || recent.back() == gi)) c.fail_stop("duplicates", "a duplicate was written, cache " + std::to_string(cap));
                            seen.insert(gi);
                            recent.push_back(gi);
                            if (wrote) want.push_back({gi, x % 2});
                        }
                        w.close();
                    }
                    BinaryDatasetReader rd(p);
                    c.trace();
                    c.state(mc::hash(mc::slurp(p), cap * 2 + split));
                    if (rd.rowCount() != want.size()) c.fail_stop("duplicates", "row count");
                    for (size_t r = 0; r < want.size(); r++) {
                        auto row = rd.readRow(r);
                        std::vector<float> g;
                        for (auto &t: row.first) for (float x: flat(t)) g.push_back(x);
                        if (g != gv[want[r].first] || flat(row.second[0]) != std::vector<float>{(float) want[r].second}) c.fail_stop("duplicates", "row content");
                    }
                }
            }
        });
    });
    // damaged files: every truncation of a file is refused or read as a prefix of its rows
    if (c.begin("every truncation of a dataset file"))
        c.run([&]() {
            std::vector<Meta> mg = {make(kinds[0], norms[1], 1), make(kinds[2], norms[0], 1)}, me = {make(kinds[5], norms[2], 2)};
            {
                BinaryDatasetWriter w(p, mg, me, 0);
                for (int r = 0; r < 3; r++)
                    w.writeRow({make_tensor(kinds[0], tensor_values(kinds[0], r, 0)), make_tensor(kinds[2], tensor_values(kinds[2], r, 1))}, {make_tensor(kinds[5], tensor_values(kinds[5], r, 2))});
                w.close();
            }
            auto data = mc::slurp(p);
            for (size_t n = 0; n < data.size(); n++) {
                mc::spit(p, data.substr(0, n));
                c.transition();
                c.state(mc::hash(data.data(), n));
                std::unique_ptr<BinaryDatasetReader> rd;
                try { rd = std::make_unique<BinaryDatasetReader>(p); } catch (std::exception &) { continue; }
                size_t count = rd->rowCount();
                for (size_t r = 0; r < count; r++) {
                    std::string bad;
                    try {
                        auto row = rd->readRow(r);
                        if (r > 2 || row.first.size() != 2 || row.second.size() != 1 || flat(row.first[0]) != tensor_values(kinds[0], r, 0) || flat(row.second[0]) != tensor_values(kinds[5], r, 2)) bad = "differs";
                    } catch (std::exception &e) { bad = std::string("cannot be read: ") + e.what(); }
                    if (!bad.empty()) c.fail_stop("truncated", "cut at " + std::to_string(n) + " of " + std::to_string(data.size()) + ": row " + std::to_string(r) + " of " + std::to_string(count) + " " + bad);
                }
            }
        });
    // files that are damaged in their header are refused, or read as their header says
    for (int how = 0; how < 11; how++)
        if (c.begin("every byte of the header of a dataset file changed, way " + std::to_string(how)))
            c.run([&]() {
                std::vector<Meta> mg = {make(kinds[0], norms[1], 1), make(kinds[2], norms[0], 1)}, me = {make(kinds[5], norms[2], 2)};
                {
                    BinaryDatasetWriter w(p, mg, me, 0);
                    w.close();
                }
                size_t header = mc::slurp(p).size();
                {
                    BinaryDatasetWriter w(p, mg, me, 0);
                    for (int r = 0; r < 3; r++)
                        w.writeRow({make_tensor(kinds[0], tensor_values(kinds[0], r, 0)), make_tensor(kinds[2], tensor_values(kinds[2], r, 1))}, {make_tensor(kinds[5], tensor_values(kinds[5], r, 2))});
                    w.close();
                }
                auto data = mc::slurp(p);
                for (size_t n = 0; n < header; n++) {
                    auto d = data;
                    if (how < 8) d[n] = (char) (d[n] ^ (1 << how));
                    else d[n] = (char) (how == 8 ? 0 : how == 9 ? 0xff : 0x7f);
                    mc::spit(p, d);
                    c.transition();
                    c.state(mc::hash(d));
                    try {
                        BinaryDatasetReader rd(p);
                        for (size_t r = 0; r < rd.rowCount() && r < 100; r++) {
                            auto row = rd.readRow(r);
                            if (row.first.size() != rd.get_given_column_count() || row.second.size() != rd.get_expected_column_count()) c.fail_stop("damaged", "byte " + std::to_string(n) + ": number of columns");
                            for (size_t k = 0; k < row.first.size(); k++) {
                                auto m = rd.get_given_metadata(k);
                                if (row.first[k]->rowCount() * row.first[k]->columnCount() * row.first[k]->channelCount() != m->rows * m->columns * m->channels) c.fail_stop("damaged", "byte " + std::to_string(n) + ": shape");
                            }
                        }
                    } catch (std::exception &) {}
                }
            });
    // labels: every small pair of label lists, and lists of many and of long labels in another order
    auto relabelled = [&](const std::vector<std::string> &from, const std::vector<std::string> &to, bool want) {
        Kind a = {'L', 1, from.size(), 1, from, "l"}, b = {'L', 1, to.size(), 1, to, "l"};
        for (int side = 0; side < 2; side++) {
            auto other = make(kinds[0], norms[0], 1), ma = make(a, norms[0], 1), mb = make(b, norms[0], 1);
            std::vector<Meta> g = {side ? other : ma}, e = {side ? ma : other}, rg = {side ? other : mb}, re = {side ? mb : other};
            {
                BinaryDatasetWriter w(p, g, e, 0);
                for (size_t r = 0; r < from.size(); r++) {
                    std::vector<float> v(from.size());
                    v[r] = 1;
                    auto l = make_tensor(a, v), x = make_tensor(kinds[0], {(float) r});
                    w.writeRow({side ? x : l}, {side ? l : x});
                }
                w.close();
            }
            c.state(mc::hash(mc::slurp(p), mc::hash(mc::show(to))));
            bool ok = true;
            std::unique_ptr<BinaryDatasetReader> rd;
            try { rd = std::make_unique<BinaryDatasetReader>(p, rg, re); } catch (std::exception &) { ok = false; }
            c.transition();
            c.trace();
            if (ok != want) c.fail_stop("relabel", std::string(want ? "refused" : "accepted") + " labels " + mc::show(from) + " in terms of " + mc::show(to));
            if (!ok) continue;
            if (rd->rowCount() != from.size()) c.fail_stop("relabel", "row count");
            for (size_t r = 0; r < from.size(); r++) {
                auto row = rd->readRow(r);
                auto v = flat(side ? row.second[0] : row.first[0]);
                if (v.size() != to.size()) c.fail_stop("relabel", "shape");
                for (size_t k = 0; k < to.size(); k++)
                    if (v[k] != (to[k] == from[r] ? 1.f : 0.f)) c.fail_stop("relabel", "label " + std::to_string(r) + " of " + mc::show(from) + " in terms of " + mc::show(to) + " is " + mc::show(v));
            }
        }
    };
    std::vector<std::vector<std::string>> lists;
    for (int n = 1; n <= 3; n++)
        mc::sequences(4, n, [&](const std::vector<int> &v) {
            std::vector<std::string> l;
            for (int k: v) l.push_back(std::vector<std::string>{"", "a", "b", "a "}[k]);
            if (std::set<std::string>(l.begin(), l.end()).size() == l.size()) lists.push_back(l);
        });
    for (auto &from: lists)
        for (auto &to: lists) {
            if (!c.take()) continue;
            c.desc("labels " + mc::show(from) + " read in terms of " + mc::show(to));
            c.run([&]() {
                bool want = true;
                for (auto &l: from) want = want && std::count(to.begin(), to.end(), l);
                relabelled(from, to, want);
            });
        }
    for (int n: {4, 7, 8, 9, 16, 17, 63, 64, 65, 200})
        for (int len: {1, 31, 32, 63, 64, 65, 255, 256, 257, 1000})
            if (c.begin(std::to_string(n) + " labels of " + std::to_string(len) + " bytes and more in other orders"))
                c.run([&]() {
                    std::vector<std::string> from, back, more;
                    for (int k = 0; k < n; k++) from.push_back(std::string(len, 'l') + std::to_string(k));
                    back.assign(from.rbegin(), from.rend());
                    for (int k = 0; k < n; k++) more.push_back(from[(k * 3 + 1) % n]);
                    if (n % 3) more.push_back("new"), relabelled(from, more, true), relabelled(more, from, false);
                    relabelled(from, back, true);
                    relabelled(from, from, true);
                });
    // columns of another kind or shape
    if (c.begin("metadata of every other kind and shape"))
        c.run([&]() {
            std::vector<Kind> all = kinds;
            for (auto k: {Kind{'N', 2, 1, 1, {}, ""}, Kind{'N', 1, 1, 2, {}, ""}, Kind{'N', 2, 3, 1, {}, ""}, Kind{'N', 3, 2, 2, {}, ""}, Kind{'I', 2, 2, 1, {}, ""}, Kind{'I', 2, 3, 3, {}, ""}, Kind{'I', 3, 2, 3, {}, ""}, Kind{'I', 1, 2, 1, {}, ""}, Kind{'T', 1, 1, 1, {}, ""}}) all.push_back(k);
            for (auto &a: all)
                for (auto &b: all)
                    for (int side = 0; side < 2; side++) {
                        auto other = make(kinds[0], norms[0], 1), ma = make(a, norms[0], 1), mb = make(b, norms[0], 1);
                        std::vector<Meta> g = {side ? other : ma}, e = {side ? ma : other}, rg = {side ? other : mb}, re = {side ? mb : other};
                        {
                            BinaryDatasetWriter w(p, g, e, 0);
                            w.close();
                        }
                        c.transition();
                        c.state(mc::hash(&side, 4, mc::hash(mc::slurp(p), (&b - &all[0]))));
                        bool ok = true, want = a.purpose == b.purpose && a.r == b.r && a.c == b.c && a.ch == b.ch;
                        try { BinaryDatasetReader rd(p, rg, re); } catch (std::exception &) { ok = false; }
                        if (ok != want) c.fail_stop("other columns", std::string(ok ? "accepted " : "refused ") + a.purpose + std::to_string(a.r) + "x" + std::to_string(a.c) + "x" + std::to_string(a.ch) + " in terms of " + b.purpose + std::to_string(b.r) + "x" + std::to_string(b.c) + "x" + std::to_string(b.ch));
                    }
        });
    // large files: rows around every power of two of the offset and of the number of the row
    for (int width: {1, 15, 1000})
        if (c.begin("rows of " + std::to_string(width) + " numbers far into a large file"))
            c.run([&]() {
                Kind k = {'N', 1, (size_t) width, 1, {}, "n"}, y = {'N', 1, 1, 1, {}, "y"};
                auto values = [&](size_t r, size_t n, int col) {
                    std::vector<float> v;
                    for (size_t i = 0; i < n; i++) v.push_back((float) ((r * 31 + i * 7 + col) % 100003));
                    return v;
                };
                auto write = [&](const std::string &f, size_t r, int n) {
                    BinaryDatasetWriter w(f, {make(k, norms[0], width)}, {make(y, norms[0], 1)}, 0);
                    for (int i = 0; i < n; i++) w.writeRow({make_tensor(k, values(r, width, 0))}, {make_tensor(y, values(r, 1, 5))});
                    w.close();
                };
                write(p, 0, 0);
                size_t header = mc::slurp(p).size();
                write("one.bin", 0, 1);
                size_t size = mc::slurp("one.bin").size() - header;
                std::set<size_t> rows = {0};
                for (int b = 10; b <= 34; b++)
                    for (size_t at: {((size_t) 1 << b) / size, (size_t) 1 << b})
                        for (int d = -2; d <= 2; d++)
                            if ((long long) at + d >= 0 && header + (at + d + 1) * size < ((size_t) 1 << 37)) rows.insert(at + d);
                int fd = ::open(p.c_str(), O_RDWR);
                for (auto r: rows) {
                    write("one.bin", r, 1);
                    auto d = mc::slurp("one.bin").substr(header);
                    if (pwrite(fd, d.data(), d.size(), header + r * size) != (ssize_t) d.size()) c.fail_stop("large file", "cannot be made");
                }
                ::close(fd);
                BinaryDatasetReader rd(p);
                if (rd.rowCount() != *rows.rbegin() + 1) c.fail_stop("large file", "has " + std::to_string(rd.rowCount()) + " rows instead of " + std::to_string(*rows.rbegin() + 1));
                for (int pass = 0; pass < 2; pass++)
                    for (auto r: rows) {
                        auto row = rd.readRow(pass ? *rows.rbegin() - r + *rows.begin() : r);
                        if (pass) row = rd.readRow(r);
                        c.transition();
                        c.state(mc::hash(&r, 8, width));
                        if (flat(row.first[0]) != values(r, width, 0) || flat(row.second[0]) != values(r, 1, 5)) c.fail_stop("large file", "row " + std::to_string(r) + " of " + std::to_string(width) + " numbers is another row");
                    }
                c.trace();
            });
}

}

MC_MAIN
