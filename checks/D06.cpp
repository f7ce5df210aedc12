// Datasets as sequences of records: order, restart, shuffling and splits of the real dataset classes.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "D06";
    i.rule = "case = (dataset kind, number of rows, split); all sequences of operations (next record, restart, shuffle) up to a depth run on the real dataset against a model: each pass yields every record "
             "of the split exactly once, given and expected stay paired, the end is reported, restart begins again, shuffling permutes only; a split and its complement partition the rows; two datasets "
             "sharing a shuffler stay aligned. state = (rows, split, position, order); transition = one operation";
    i.bounds_quick = {"rows 0..6, operation sequences up to 8", "splits: every row count 0..200 x 12 ratios, 9 row counts up to 20000 x 10 ratios in steps of 1/10000", "both parts with shufflers: 1..40 rows"};
    i.bounds_thorough = {"rows 0..7, operation sequences up to 10", "splits: every row count 0..1200 x 12 ratios"};
    return i;
}

static void make_file(const std::string &p, int n) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    *m = BinaryColumnMetadata{};
    m->purpose = 'N';
    m->rows = m->columns = m->channels = 1;
    m->source_column_count = 1;
    m->name = "v";
    BinaryDatasetWriter w(p, {m}, {m}, 0);
    for (int i = 0; i < n; i++) w.writeRow({columnVector({(float) i})}, {columnVector({(float) i * 10 + 1})});
    w.close();
}

static std::shared_ptr<TrainingDataSet> open_set(int kind, int n, const std::string &p) {
    if (kind == 0) {
        auto d = std::make_shared<InMemoryTrainingDataSet>();
        for (int i = 0; i < n; i++) {
            if (i % 3 == 0) d->addTrainingData(columnVector({(float) i}), (float) i * 10 + 1);
            else if (i % 3 == 1) d->addTrainingData(columnVector({(float) i}), columnVector({(float) i * 10 + 1}));
            else d->addTrainingData(std::vector<T>{columnVector({(float) i})}, std::vector<T>{columnVector({(float) i * 10 + 1})});
        }
        return d;
    }
    make_file(p, n);
    if (kind == 1) return std::make_shared<BinaryDataSet>(p);
    return std::make_shared<BinaryDataSet>(p, kind == 2 ? 0.5f : -0.5f);
}

static int value(const std::shared_ptr<TrainingPair> &r) {
    int g = (int) r->getGiven()[0]->getValue(0, 0, 0), e = (int) r->getExpected()[0]->getValue(0, 0, 0);
    return e == g * 10 + 1 ? g : -1;
}

static std::string list(const std::vector<int> &v) {
    std::string r;
    for (int x: v) r += (r.empty() ? "" : " ") + std::to_string(x);
    return r;
}

static void explore(mc::Ctx &c) {
    int maxn = c.thorough ? 7 : 6, depth = c.thorough ? 10 : 8;
    for (int kind = 0; kind < 4; kind++)
        for (int n = 0; n <= maxn; n++)
            mc::sequences(3, depth, [&](const std::vector<int> &ops) {
                if (!c.take()) return;
                std::string what = "dataset kind " + std::to_string(kind) + " rows " + std::to_string(n) + " operations ";
                for (int o: ops) what += "nrs"[o];
                c.desc(what);
                c.run([&]() {
                    auto d = open_set(kind, n, "x.bin");
                    int count = (int) d->recordCount();
                    int want_count = kind < 2 ? n : kind == 2 ? (int) (n * 0.5f) : n - (int) (n * 0.5f);
                    if (count != want_count) c.fail_stop("count", std::to_string(count) + " records instead of " + std::to_string(want_count));
                    // the order of the first pass, read to the end; a shuffler that does nothing changes nothing
                    std::vector<int> plain;
                    for (int pass = 0; pass < 2; pass++) {
                        plain.clear();
                        while (auto r = d->nextRecord()) {
                            plain.push_back(value(r));
                            if ((int) plain.size() > n) c.fail_stop("end", "the dataset does not end");
                        }
                        d->restart();
                    }
                    auto sh = std::make_shared<Shuffler>(count);
                    d->setShuffler(sh);
                    std::vector<int> base;
                    while (auto r = d->nextRecord()) {
                        base.push_back(value(r));
                        if ((int) base.size() > n) c.fail_stop("end", "the dataset does not end");
                    }
                    if ((int) base.size() != count) c.fail_stop("pass", "a pass gave " + std::to_string(base.size()) + " of " + std::to_string(count) + " records");
                    if (base != plain) c.fail_stop("order", "a shuffler that does nothing changes the records: " + list(plain) + " become " + list(base));
                    auto sorted = base;
                    std::sort(sorted.begin(), sorted.end());
                    if (std::unique(sorted.begin(), sorted.end()) != sorted.end() || (count && (sorted[0] < 0 || sorted.back() >= n))) c.fail_stop("pass", "records repeated or not paired");
                    if (kind < 2) for (int i = 0; i < n; i++) if (base[i] != i) c.fail_stop("order", "an unshuffled dataset is not read in order");
                    int pos = count;
                    for (int o: ops) {
                        if (o == 0) {
                            auto r = d->nextRecord();
                            int w = pos < count ? base[sh->getShuffledIndex(pos)] : -2;
                            int g = r ? value(r) : -2;
                            if (g != w) c.fail_stop("record", "record " + std::to_string(pos) + " is " + std::to_string(g) + " instead of " + std::to_string(w));
                            if (pos < count) pos++;
                        } else if (o == 1) {
                            d->restart();
                            pos = 0;
                        } else sh->shuffle_predictably();
                        std::vector<size_t> perm;
                        for (int i = 0; i < count; i++) perm.push_back(sh->getShuffledIndex(i));
                        c.state(mc::hash(perm.data(), perm.size() * 8, kind * 1000 + n * 100 + pos));
                        auto sp = perm;
                        std::sort(sp.begin(), sp.end());
                        for (int i = 0; i < count; i++) if (sp[i] != (size_t) i) c.fail_stop("shuffle", "not a permutation");
                        c.transition();
                    }
                    if ((int) d->recordCount() != count) c.fail_stop("count", "changes over time");
                    c.trace();
                });
            });
    // random shuffles are permutations too; a wrong size is refused; adding after a shuffler is refused
    for (int n = 0; n <= 40; n++)
        if (c.begin("shuffler of size " + std::to_string(n)))
            c.run([&]() {
                Shuffler s(n);
                for (int k = 0; k < 20; k++) {
                    s.shuffle();
                    std::vector<bool> seen(n, false);
                    for (int i = 0; i < n; i++) {
                        auto x = s.getShuffledIndex(i);
                        if (x >= (size_t) n || seen[x]) c.fail_stop("shuffle", "not a permutation");
                        seen[x] = true;
                    }
                    c.transition();
                }
                auto d = open_set(0, n, "");
                bool refused = false;
                try { d->setShuffler(std::make_shared<Shuffler>(n + 1)); } catch (std::runtime_error &) { refused = true; }
                if (!refused) c.fail_stop("shuffler size", "a shuffler of another size is accepted");
                d->setShuffler(std::make_shared<Shuffler>(n));
                refused = false;
                try { std::static_pointer_cast<InMemoryTrainingDataSet>(d)->addTrainingData(columnVector({1.f}), 2.f); } catch (std::runtime_error &) { refused = true; }
                if (!refused) c.fail_stop("shuffler size", "data is added behind a shuffler");
                c.state(n);
                c.trace();
            });
    // splits
    std::vector<float> ratios = {0.9f, 0.8f, 0.75f, 0.7f, 0.6f, 0.5f, 0.4f, 0.3f, 0.25f, 0.2f, 0.1f, 0.05f};
    std::vector<int> sizes;
    for (int n = 0; n <= (c.thorough ? 1200 : 200); n++) sizes.push_back(n);
    for (int n: {1500, 2000, 3333, 4999, 5000, 9999, 10000, 10001, 20000}) sizes.push_back(n);
    for (int n: sizes)
        if (c.begin("splits of " + std::to_string(n) + " rows"))
            c.run([&]() {
                make_file("s.bin", n);
                auto use = ratios;
                if (n > 1200) use = {0.0004f, 0.0012f, 0.0005f, 0.1234f, 0.3333f, 0.6667f, 0.9985f, 0.9995f, 0.9999f, 0.8f};
                for (float r: use) {
                    BinaryDataSet a("s.bin", r), b("s.bin", -(1.0f - r)), b2("s.bin", {}, {}, -(1.0f - r));
                    std::vector<int> seen(n, 0);
                    int na = 0, prefix = 0;
                    std::vector<int> av;
                    while (auto x = a.nextRecord()) {
                        int v = value(x);
                        if (v < 0 || v >= n) c.fail_stop("split", "not a record");
                        seen[v]++;
                        if (v < (int) a.recordCount()) prefix++;
                        na++;
                    }
                    int nb = 0;
                    while (auto x = b.nextRecord()) {
                        auto y = b2.nextRecord();
                        int v = value(x);
                        if (v < 0 || v >= n || !y || value(y) != v) c.fail_stop("split", "not a record");
                        seen[v]++;
                        nb++;
                    }
                    c.transition(na + nb);
                    c.trace();
                    c.state(mc::hash(&r, 4, n));
                    for (int i = 0; i < n; i++)
                        if (seen[i] != 1) c.fail_stop("split", "ratio " + mc::show(r) + ": row " + std::to_string(i) + " is in " + std::to_string(seen[i]) + " of the two parts");
                    if (std::abs(na - n * r) > 1.001f + n * 0.0000001f) c.fail_stop("split", "ratio " + mc::show(r) + " holds " + std::to_string(na) + " of " + std::to_string(n));
                    // rows of a file are sorted, so a part that is a plain prefix is not a fair one
                    if (n >= 40 && nb >= 4 && na >= 4 && prefix == na) c.fail_stop("fair split", "ratio " + mc::show(r) + ": the part is the beginning of the file");
                }
            });
    // both parts of a split, each with a shuffler of its own
    for (int n = 1; n <= 40; n++)
        if (c.begin("shuffled splits of " + std::to_string(n) + " rows"))
            c.run([&]() {
                make_file("s.bin", n);
                for (float r: ratios) {
                    BinaryDataSet a("s.bin", r), b("s.bin", {}, {}, -(1.0f - r));
                    for (int pass = 0; pass < 4; pass++) {
                        std::vector<int> seen(n, 0);
                        int part = 0;
                        for (auto *d: {&a, &b}) {
                            part++;
                            d->restart();
                            if (pass) {
                                auto sh = std::make_shared<Shuffler>(d->recordCount());
                                if (pass > 1) sh->shuffle();
                                d->setShuffler(sh);
                            }
                            for (int pair = 0; auto x = d->nextRecord(); pair++) {
                                int v = value(x);
                                if (v < 0 || v >= n || seen[v]) c.fail_stop("shuffled split", "ratio " + mc::show(r) + ": part " + std::to_string(part) + " repeats a row of the file");
                                seen[v] = part;
                                c.transition();
                            }
                        }
                        for (int i = 0; i < n; i++) if (!seen[i]) c.fail_stop("shuffled split", "ratio " + mc::show(r) + ": row " + std::to_string(i) + " is in no part");
                    }
                    c.state(mc::hash(&r, 4, n + 5000));
                    c.trace();
                }
            });
    // two datasets with a common shuffler
    for (int n = 1; n <= 30; n++)
        if (c.begin("two datasets of " + std::to_string(n) + " rows with one shuffler"))
            c.run([&]() {
                auto a = open_set(0, n, ""), b = open_set(1, n, "y.bin");
                auto sh = std::make_shared<Shuffler>(n);
                a->setShuffler(sh);
                b->setShuffler(sh);
                for (int k = 0; k < 3; k++) {
                    sh->shuffle();
                    a->restart();
                    b->restart();
                    for (int i = 0; i < n; i++) {
                        auto x = a->nextRecord(), y = b->nextRecord();
                        if (!x || !y || value(x) != value(y)) c.fail_stop("alignment", "records differ");
                        c.transition();
                    }
                }
                c.state(n + 1000);
                c.trace();
            });
}

}

MC_MAIN
