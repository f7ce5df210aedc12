// Reference for dataset creation: layouts of column groups, rendering of tables, and the oracle that decodes a dataset.
#ifndef VERIF_DATASET_REF_HPP
#define VERIF_DATASET_REF_HPP
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "lang/statements/code_block_statement.hpp"
#include "lang/statements/create_dataset_statement.hpp"
#include "util/encoder_decoder_builder.hpp"

namespace harness {

using namespace happyml;
using Rec = std::vector<std::string>;

struct Group {
    char use;            // g e, or - for an unused column
    char type;           // N L I
    int start, width, rows, cols, chans = 1;
};
using Layout = std::vector<Group>;

static const Rec numbers = {"0", "1.5", "-2", "1000", "2010.5"};
static const Rec labels = {"a", "b c", "x,y", "say \"hi\"", "<b>"};
static const Rec pixels = {"0", "255", "128", "1", "77"};

static const Rec &alphabet(char t) { return t == 'N' ? numbers : t == 'L' ? labels : pixels; }

static std::string type_name(char t) { return t == 'N' ? "number" : t == 'L' ? "label" : "image"; }

static std::string show_layout(const Layout &l) {
    std::string s;
    for (auto &g: l) s += std::string(" ") + g.use + g.type + "@" + std::to_string(g.start) + "(" + std::to_string(g.rows) + "x" + std::to_string(g.cols) + (g.chans > 1 ? "x" + std::to_string(g.chans) : "") + ")";
    return s;
}

static std::vector<Layout> layouts(int cols) {
    std::vector<Layout> out;
    std::function<void(int, Layout)> rec = [&](int at, Layout l) {
        if (at == cols) {
            for (auto &g: l)
                if (g.use == 'g') {
                    out.push_back(l);
                    return;
                }
            return;
        }
        for (char u: {'g', 'e'})
            for (char t: {'N', 'L', 'I'}) {
                if (cols == 3 && t == 'I') continue;
                auto m = l;
                m.push_back({u, t, at, 1, 1, 1});
                rec(at + 1, m);
                if (at + 2 <= cols && t != 'L') {
                    auto w = l;
                    w.push_back({u, t, at, 2, 1, 2});
                    rec(at + 2, w);
                    if (cols < 3) {
                        auto h = l;
                        h.push_back({u, t, at, 2, 2, 1});
                        rec(at + 2, h);
                    }
                }
            }
        auto n = l;
        n.push_back({'-', 'N', at, 1, 1, 1});
        rec(at + 1, n);
    };
    rec(0, {});
    return out;
}

static std::string quote(const std::string &s) {
    std::string r = "\"";
    for (char ch: s) {
        if (ch == '"') r += '"';
        r += ch;
    }
    return r + "\"";
}

// formats: 0 csv, 1 csv with header, 2 tsv, 3 csv all quoted with header, 4 csv CRLF with spaces around unquoted cells
static std::string render(const std::vector<Rec> &rows, int format) {
    char d = format == 2 ? '\t' : ',';
    std::string eol = format == 4 ? "\r\n" : "\n", t;
    if (format == 1 || format == 3) {
        t += "\"head, 1\"";
        for (size_t i = 2; i <= std::max<size_t>(3, rows.empty() ? 0 : rows[0].size()); i++) t += ",h" + std::to_string(i);
        t += eol;
    }
    for (auto &r: rows) {
        for (size_t i = 0; i < r.size(); i++) {
            bool need = r[i].find_first_of("\",\t\n") != std::string::npos;
            if (i) t += d;
            if (format == 3 || need) t += quote(r[i]);
            else t += format == 4 ? " " + r[i] + " " : r[i];
        }
        t += eol;
    }
    return t;
}

static std::vector<std::shared_ptr<ColumnGroup>> request(const Layout &l, bool reversed) {
    std::vector<std::shared_ptr<ColumnGroup>> g;
    for (auto &x: l)
        if (x.use != '-')
            g.push_back(std::make_shared<ColumnGroup>(g.size() + 1, x.start, x.width, x.use == 'g' ? "given" : "expected", type_name(x.type), "name" + std::to_string(x.start), x.rows, x.cols, x.chans));
    if (reversed) std::reverse(g.begin(), g.end());
    return g;
}

static bool execute(CreateDatasetStatement &s, std::string &message) {
    try {
        auto r = s.execute(std::make_shared<ExecutionContext>());
        message = r->getMessage();
        if (r->exitRequested()) message += " (exit)";
        return r->isSuccessful();
    } catch (std::exception &e) {
        message = e.what();
        return false;
    }
}

static const std::string data_dir = "../data", repo = "../happyml_repo";

static void clean() {
    std::filesystem::remove_all(repo);
    std::filesystem::remove_all(data_dir);
    std::filesystem::create_directories(data_dir);
}

// one decoded row: text per source column of the given and expected groups
struct Decoded {
    std::vector<std::vector<double>> num;   // per group
    Rec text;                               // per group, labels only
};

static void verify(mc::Ctx &c, const Layout &l, const std::vector<Rec> &rows, const std::string &what) {
    BinaryDatasetReader rd(ExecutionContext::get_dataset_path("ds") + "/dataset.bin");
    std::vector<Group> order;
    for (char u: {'g', 'e'}) for (auto &g: l) if (g.use == u) order.push_back(g);
    size_t ng = std::count_if(order.begin(), order.end(), [](const Group &g) { return g.use == 'g'; });
    if (rd.get_given_column_count() != ng || rd.get_expected_column_count() != order.size() - ng) c.fail_stop("columns", what + ": number of columns");
    std::vector<std::shared_ptr<BinaryColumnMetadata>> ms;
    std::vector<double> tol;
    for (size_t i = 0; i < order.size(); i++) {
        auto &g = order[i];
        auto m = i < ng ? rd.get_given_metadata(i) : rd.get_expected_metadata(i - ng);
        ms.push_back(m);
        if (m->name != "name" + std::to_string(g.start)) c.fail_stop("columns", what + ": column " + std::to_string(i) + " is named " + m->name);
        if (m->purpose != g.type) c.fail_stop("columns", what + ": purpose of " + m->name);
        if (m->source_column_count != (size_t) g.width) c.fail_stop("columns", what + ": source column count of " + m->name);
        std::set<std::string> distinct;
        double big = 0;
        for (auto &r: rows) {
            if (g.type == 'L') distinct.insert(r[g.start]);
            else for (int k = 0; k < g.width; k++) big = std::max(big, std::fabs(atof(r[g.start + k].c_str())));
        }
        tol.push_back(big == 0 ? 1e-6 : 1e-5 * big);
        if (g.type == 'L') {
            auto got = m->ordered_labels;
            std::sort(got.begin(), got.end());
            if (got != Rec(distinct.begin(), distinct.end())) c.fail_stop("labels", what + ": labels " + mc::show(got));
            if (m->rows != 1 || m->columns != distinct.size() || m->channels != 1) c.fail_stop("columns", what + ": shape of " + m->name);
        } else if (m->rows != (size_t) g.rows || m->columns != (size_t) g.cols || m->channels != (size_t) g.chans) c.fail_stop("columns", what + ": shape of " + m->name);
    }
    auto matches = [&](const std::vector<std::shared_ptr<BaseTensor>> &t, const Rec &r, bool given) {
        for (size_t i = given ? 0 : ng; i < (given ? ng : order.size()); i++) {
            auto &g = order[i];
            auto x = t[given ? i : i - ng];
            auto decoder = build_decoder(false, ms[i]);
            if (g.type == 'L') {
                if (decoder->decodeBest(x) != r[g.start]) return false;
                float sum = 0;
                for (size_t k = 0; k < x->columnCount(); k++) sum += x->getValue(0, k, 0);
                if (sum != 1.f) return false;
            } else {
                auto y = g.type == 'N' ? decoder->decode(x) : x;
                int k = 0;
                for (int ch = 0; ch < g.chans; ch++)
                    for (int a = 0; a < g.rows; a++)
                        for (int b = 0; b < g.cols; b++, k++) {
                            double want = atof(r[g.start + k].c_str()), got = y->getValue(a, b, ch);
                            if (g.type == 'I') got *= 255.0;
                            if (!(std::fabs(got - want) <= (g.type == 'I' ? 0.01 : tol[i]))) return false;
                        }
            }
        }
        return true;
    };
    auto given_key = [&](const Rec &r) {
        std::string k;
        for (size_t i = 0; i < ng; i++) for (int z = 0; z < order[i].width; z++) k += r[order[i].start + z] + "\x01";
        return k;
    };
    std::set<std::string> want, got;
    for (auto &r: rows) want.insert(given_key(r));
    for (size_t n = 0; n < rd.rowCount(); n++) {
        auto row = rd.readRow(n);
        bool any = false;
        for (auto &r: rows)
            if (matches(row.first, r, true) && matches(row.second, r, false)) {
                any = true;
                if (!got.insert(given_key(r)).second) c.fail_stop("duplicate", what + ": row " + std::to_string(n) + " repeats the given part " + mc::show(r));
                break;
            }
        if (!any) {
            std::string d;
            for (size_t i = 0; i < order.size(); i++) {
                std::stringstream ss;
                (i < ng ? row.first[i] : row.second[i - ng])->print(ss);
                d += ss.str() + ";";
            }
            c.fail_stop("row", what + ": stored row " + std::to_string(n) + " is no row of the table: " + d);
        }
        for (size_t i = 0; i < order.size(); i++)
            if (order[i].type == 'N') {
                auto x = i < ng ? row.first[i] : row.second[i - ng];
                for (int a = 0; a < order[i].rows * order[i].chans; a++)
                    for (int b = 0; b < order[i].cols; b++) {
                        float v = x->getValue(a % order[i].rows, b, a / order[i].rows);
                        if (!(v >= -1e-5f && v <= 1.00001f)) c.fail_stop("normalized", what + ": stored number " + mc::show(v));
                    }
            }
    }
    if (got != want) c.fail_stop("missing row", what + ": " + std::to_string(want.size() - got.size()) + " rows of the table are missing");
}

}

#endif
