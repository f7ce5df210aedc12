// Reading delimited text that other programs wrote, and converting tsv and txt files.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"

namespace harness {

using namespace happyml;
using Rec = std::vector<std::string>;

static mc::Info info() {
    mc::Info i;
    i.id = "D02";
    i.rule = "case = a block of files. (a) every table of cells x quoting style x line end x final line end, read with the real reader, against the cells it was made from; "
             "(b) every short text over the syntax characters: terminates with records or an error, and agrees with a reference reader; (c) every directory of small files; "
             "(d) every short tsv file converted to csv; (e) every short word sequence x limit split by the txt conversion. state = distinct file; transition = one record read";
    i.bounds_quick = {"(a) cells: 16 values, up to 2 rows x 2 columns, quoted or not, LF or CRLF", "(b) texts up to 6 characters over a , \" newline space 1", "(c) up to 3 files of up to 2 lines, header or not",
                      "(d) the tables of (a) with tabs", "(e) up to 6 words of 5 kinds, 7 limits"};
    i.bounds_thorough = {"(b) texts up to 8 characters", "(e) up to 7 words", "otherwise as quick"};
    return i;
}

static bool sp(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }

static std::string strip_ref(const std::string &s) {
    size_t a = 0, b = s.size();
    while (a < b && sp(s[a])) a++;
    while (b > a && sp(s[b - 1])) b--;
    return s.substr(a, b - a);
}

static std::string quote(const std::string &s) {
    std::string r = "\"";
    for (char ch: s) {
        if (ch == '"') r += '"';
        r += ch;
    }
    return r + "\"";
}

static std::vector<Rec> read_all(const std::string &p, char d, bool header, size_t cap = 1000) {
    DelimitedTextFileReader rd(p, d, header);
    std::vector<Rec> o;
    while (rd.hasNext()) {
        o.push_back(rd.nextRecord());
        if (o.size() > cap) throw std::runtime_error("endless");
    }
    return o;
}

static std::string show_all(const std::vector<Rec> &v) {
    std::string r;
    for (auto &x: v) r += mc::show(x) + " ";
    return r;
}

// reference reader: quotes toggle, a doubled quote inside quotes is a quote, a record ends at a line end outside quotes
static bool reference(const std::string &t, char d, std::vector<Rec> &out) {
    size_t i = 0;
    while (i < t.size()) {
        Rec r;
        std::string w;
        bool q = false, ended = false;
        while (i < t.size()) {
            char ch = t[i];
            if (q && ch == '"' && i + 1 < t.size() && t[i + 1] == '"') {
                w += '"';
                i += 2;
                continue;
            }
            i++;
            if (ch == '"') q = !q;
            else if (ch == d && !q) {
                r.push_back(strip_ref(w));
                w.clear();
            } else if (ch == '\n' && !q) {
                ended = true;
                break;
            } else w += ch;
        }
        if (q) return false;
        (void) ended;
        r.push_back(strip_ref(w));
        out.push_back(r);
    }
    return true;
}

static void explore(mc::Ctx &c) {
    c.fresh("w2");
    auto path = c.dir + "/w2/t.csv";
    std::vector<std::string> cells = {"", "a", "1.5", "b c", "x\"y", "\"q\"", "\"\"", "\"", "p,q", "l\nm", "<_x", "<~y>z", "a\tb", "1,2", "<", "it's <b>"};
    // (a) and (d)
    for (char d: {',', '\t'})
        for (int rows = 1; rows <= 2; rows++)
            for (int cols = 1; cols <= 2; cols++) {
                int n = rows * cols;
                // in two-row tables the first row takes every fourth value
                mc::sequences((int) cells.size(), std::min(n, 3), [&](const std::vector<int> &ix) {
                    auto at = [&](int k) -> const std::string & { return cells[ix[k % ix.size()]]; };
                    bool must = false;
                    for (int k = 0; k < n; k++) {
                        auto &s = at(k);
                        if (s.find_first_of("\"\n") != s.npos || s.find(d) != s.npos) must = true;
                    }
                    if (!c.begin(std::string("table ") + std::to_string(rows) + "x" + std::to_string(cols) + " delimiter " + mc::show(std::string(1, d)) + " of " +
                                 [&] { Rec r; for (int k = 0; k < n; k++) r.push_back(at(k)); return mc::show(r); }())) return;
                    c.run([&]() {
                        for (int style = 0; style < 3; style++)       // as needed, all quoted, quoted with spaces around
                            for (int crlf = 0; crlf < 2; crlf++)
                                for (int last = 0; last < 2; last++)
                                    for (int head = 0; head < 2; head++) {
                                        std::string t = head ? "h1" + std::string(1, d) + "h2\n" : "";
                                        std::vector<Rec> want;
                                        for (int r = 0; r < rows; r++) {
                                            Rec rec;
                                            for (int k = 0; k < cols; k++) {
                                                auto &s = at(r * cols + k);
                                                bool need = s.find_first_of("\"\n") != s.npos || s.find(d) != s.npos;
                                                if (k) t += d;
                                                if (style == 2) t += " " + quote(s) + " ";
                                                else t += style == 1 || need ? quote(s) : s;
                                                rec.push_back(strip_ref(s));
                                            }
                                            if (r + 1 < rows || last) t += crlf ? "\r\n" : "\n";
                                            want.push_back(rec);
                                        }
                                        // a last line without any character is no record
                                        if (!last && (t.empty() || t.back() == '\n')) continue;
                                        mc::spit(path, t);
                                        auto got = read_all(path, d, head);
                                        c.state(mc::hash(t, d));
                                        c.transition(got.size());
                                        c.trace();
                                        if (got != want) c.fail_stop("reader", "text " + mc::show(t) + " read as " + show_all(got) + "expected " + show_all(want));
                                        if (d == '\t' && !head) {
                                            auto out = c.dir + "/w2/out.csv";
                                            if (!convert_tsv_to_csv(path, out)) c.fail_stop("tsv", "conversion refused for " + mc::show(t));
                                            auto conv = read_all(out, ',', false);
                                            c.trace();
                                            if (conv != want) c.fail_stop("tsv", "text " + mc::show(t) + " converted to " + show_all(conv) + "expected " + show_all(want));
                                        }
                                    }
                    });
                });
            }
    // (b)
    {
        std::vector<std::string> al = {"a", ",", "\"", "\n", " ", "1"};
        std::vector<std::string> blk;
        auto flush = [&]() {
            if (!blk.empty() && c.begin("texts from " + mc::show(blk[0])))
                c.run([&]() {
                    for (auto &t: blk) {
                        mc::spit(path, t);
                        std::vector<Rec> want, got;
                        bool ok = reference(t, ',', want), ok2 = true;
                        try { got = read_all(path, ',', false, 20); }
                        catch (std::runtime_error &e) { ok2 = false; }
                        c.state(mc::hash(t));
                        c.transition(got.size());
                        c.trace();
                        if (ok != ok2 || (ok && got != want))
                            c.fail_key("reader @ text " + mc::show(t), (ok2 ? "read as " + show_all(got) : std::string("refused ")) + (ok ? "expected " + show_all(want) : "expected an error"));
                    }
                });
            blk.clear();
        };
        mc::strings(al, 0, c.thorough ? 8 : 6, [&](const std::string &s) {
            blk.push_back(s);
            if (blk.size() == 200) flush();
        });
        flush();
    }
    // (c)
    std::vector<std::string> contents = {"", "\n", "a\n", "a", "a\nb\n", "h\na,1\nb"};
    for (int n = 0; n <= 3; n++)
        mc::sequences((int) contents.size(), n, [&](const std::vector<int> &v) {
            for (int head = 0; head < 2; head++) {
                if (!c.begin("directory of " + [&] { Rec r; for (int k: v) r.push_back(contents[k]); return mc::show(r); }() + (head ? " with header lines" : ""))) continue;
                c.run([&]() {
                    auto dir = c.fresh("many");
                    std::vector<std::string> want;
                    for (size_t k = 0; k < v.size(); k++) {
                        mc::spit(dir + "/f" + std::to_string(k) + ".csv", contents[v[k]]);
                        std::istringstream s(contents[v[k]]);
                        std::string l;
                        bool first = true;
                        while (std::getline(s, l)) {
                            if (!(first && head)) want.push_back(l);
                            first = false;
                        }
                    }
                    TextLinePathReader rd(dir, head);
                    std::vector<std::string> got;
                    while (rd.hasNext() && got.size() < 50) got.push_back(rd.nextLine());
                    std::sort(got.begin(), got.end());
                    std::sort(want.begin(), want.end());
                    c.state(mc::hash(mc::show(got)));
                    c.transition(got.size());
                    c.trace();
                    c.check(got == want, "directory", "lines read " + mc::show(got) + " expected " + mc::show(want));
                });
            }
        });
    // (e)
    std::vector<std::string> words = {"ab", "cde.", "f", "longerword", "g.\""};
    for (int n = 0; n <= (c.thorough ? 7 : 6); n++)
        mc::sequences((int) words.size(), n, [&](const std::vector<int> &v) {
            if (!c.take()) return;
            std::string t;
            Rec w;
            for (int k: v) {
                if (!t.empty()) t += " ";
                t += words[k];
                w.push_back(words[k]);
            }
            c.desc("split text " + mc::show(t));
            c.run([&]() {
                auto p = c.dir + "/w2/t.txt", o = c.dir + "/w2/o.csv";
                for (int trail = 0; trail < 2; trail++)
                    for (int limit: {1, 4, 5, 8, 12, 20, 4000}) {
                        mc::spit(p, t + (trail ? "\n" : ""));
                        if (!convert_txt_to_csv(p, o, limit)) c.fail_stop("txt", "refused");
                        auto got = read_all(o, ',', false);
                        Rec g;
                        for (auto &r: got) {
                            if (r.size() != 1) c.fail_stop("txt", "record of " + std::to_string(r.size()) + " cells");
                            std::istringstream s(r[0]);
                            std::string x;
                            size_t k = 0;
                            while (s >> x) g.push_back(x), k++;
                            if (k == 0) c.fail_stop("txt", "empty cell, limit " + std::to_string(limit) + ": " + show_all(got));
                            if (k > 1 && (int) r[0].size() > limit) c.fail_stop("txt", "cell longer than the limit " + std::to_string(limit) + ": " + mc::show(r[0]));
                        }
                        c.state(mc::hash(mc::slurp(o)));
                        c.transition(got.size());
                        c.trace();
                        if (g != w) c.fail_stop("txt", "words after splitting with limit " + std::to_string(limit) + ": " + mc::show(g));
                    }
            });
        });
}

}

MC_MAIN
