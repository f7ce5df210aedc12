// Reference lexer and grammar of the language.
#ifndef VERIF_LANG_REF_HPP
#define VERIF_LANG_REF_HPP
#include "mc.hpp"

namespace harness {

static const std::vector<std::string> keywords = {"copy", "create", "delete", "describe", "execute", "exit", "help", "list", "move", "print", "refine", "set", "accuracy", "dataset", "datasets",
                                                  "future", "image", "input", "label", "memory", "number", "speed", "task", "tasks", "text", "at", "expected", "given", "goal", "header", "limit",
                                                  "pretty", "raw", "starting", "test", "to", "using", "with"};

struct Tok {
    std::string label, value;
    size_t offset;
};

static std::string lower(std::string s) {
    for (auto &ch: s) if (ch >= 'A' && ch <= 'Z') ch += 32;
    return s;
}

static bool alpha(char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); }
static bool digit(char ch) { return ch >= '0' && ch <= '9'; }

// returns the offset of the first character that is not part of the language, or npos
static size_t reference(const std::string &t, std::vector<Tok> &out) {
    static const std::unordered_set<std::string> kw(keywords.begin(), keywords.end());
    size_t i = 0;
    while (i < t.size()) {
        char ch = t[i];
        size_t j = i + 1;
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
            i++;
            continue;
        }
        if (ch == '#') {
            while (i < t.size() && t[i] != '\n') i++;
            continue;
        }
        std::string label;
        if (alpha(ch)) {
            while (j < t.size() && (alpha(t[j]) || digit(t[j]) || t[j] == '_')) j++;
            auto w = lower(t.substr(i, j - i));
            label = kw.count(w) ? "_" + w : "_word";
        } else if (digit(ch) || ch == '.') {
            j = i;
            while (j < t.size() && digit(t[j])) j++;
            if (j < t.size() && t[j] == '.') j++;
            while (j < t.size() && digit(t[j])) j++;
            label = "_number";
        } else if (ch == '"' || ch == '\'') {
            while (j < t.size() && t[j] != ch) j += t[j] == '\\' && j + 1 < t.size() && t[j + 1] == ch ? 2 : 1;
            if (j < t.size()) {
                j++;
                label = "_string";
            } else {
                j = i + 1;
                label = ch == '"' ? "_double_quote" : "_single_quote";
            }
        } else {
            static const std::map<char, std::string> p = {{'(', "_open_parenthesis"}, {')', "_close_parenthesis"}, {'[', "_open_bracket"}, {']', "_close_bracket"}, {'=', "_equal"}, {':', "_colon"},
                                                          {'/', "_slash"}, {'%', "_percent"}, {'\\', "_backslash"}, {',', "_comma"}, {'_', "_underscore"}};
            auto f = p.find(ch);
            if (f == p.end()) return i;
            label = f->second;
        }
        out.push_back({label, t.substr(i, j - i), i});
        i = j;
    }
    return std::string::npos;
}

// Recognizer. strict: what the documentation promises; otherwise: the most that may be accepted.
// Result: OK, INCOMPLETE (every longer text may still be fine), BAD.
enum Verdict { OK, INCOMPLETE, BAD };

class Grammar {
public:
    Grammar(const std::vector<Tok> &tokens, bool strict) : t(tokens), strict(strict) {}

    Verdict program(int *statements = nullptr) {
        while (i < t.size()) {
            Verdict v = statement();
            if (v != OK) return v;
            if (statements) ++*statements;
        }
        return OK;
    }

private:
    const std::vector<Tok> &t;
    bool strict;
    size_t i = 0;

    bool end() const { return i >= t.size(); }
    const std::string &at() const { return t[i].label; }

    static bool starts(const std::string &l) { return l == "_help" || l == "_print" || l == "_create" || l == "_execute" || l == "_exit"; }

    Verdict any() { return end() ? INCOMPLETE : (i++, OK); }

    Verdict need(std::initializer_list<const char *> labels) {
        if (end()) return INCOMPLETE;
        for (auto l: labels)
            if (at() == l) {
                i++;
                return OK;
            }
        return BAD;
    }

    Verdict name() { return strict ? need({"_word"}) : any(); }

    Verdict integer() {
        if (end()) return INCOMPLETE;
        auto &v = t[i].value;
        if (at() != "_number" || !digit(v[0]) || v.find_first_not_of("0123456789.") != std::string::npos) return BAD;
        if (strict && (v.find('.') != std::string::npos || v.size() > 9)) return BAD;
        if (strtod(v.c_str(), nullptr) >= 2147483648.0) return BAD;
        i++;
        return OK;
    }

#define TRY(x) do { Verdict v_ = (x); if (v_ != OK) return v_; } while (0)

    Verdict statement() {
        TRY(need({"_help", "_print", "_create", "_execute", "_exit"}));
        auto &l = t[i - 1].label;
        if (l == "_exit") return OK;
        if (l == "_help") {
            if (end() || starts(at())) return OK;
            return strict ? need({"_dataset", "_task", "_future"}) : any();
        }
        if (l == "_print") {
            TRY(need({"_raw", "_pretty"}));
            TRY(name());
            if (!end() && at() == "_limit") {
                i++;
                TRY(integer());
            }
            return OK;
        }
        if (l == "_create") {
            TRY(need({"_dataset", "_task"}));
            return t[i - 1].label == "_dataset" ? dataset() : task();
        }
        return execute();
    }

    Verdict dataset() {
        TRY(need({"_word"}));
        int given = 0;
        while (!end() && at() == "_with") {
            i++;
            TRY(need({"_header", "_given", "_expected"}));
            if (t[i - 1].label == "_header") continue;
            given += t[i - 1].label == "_given";
            TRY(strict ? need({"_label", "_number", "_text", "_image"}) : any());
            TRY(name());
            if (!end() && at() == "_open_parenthesis") {
                i++;
                TRY(integer());
                for (int k = 0; k < 2 && !end() && at() == "_comma"; k++) {
                    i++;
                    TRY(integer());
                }
                TRY(need({"_close_parenthesis"}));
            }
            TRY(need({"_at"}));
            TRY(integer());
        }
        if (strict && !given) return BAD;
        TRY(need({"_using"}));
        if (!strict) {
            for (int k = 0; k < 4; k++) TRY(any());
        } else {
            if (!end() && lower(t[i].value) != "file") return BAD;
            TRY(need({"_word"}));
            TRY(need({"_colon"}));
            TRY(need({"_slash"}));
            TRY(need({"_slash"}));
        }
        if (end()) return INCOMPLETE;
        size_t from = i;
        static const std::set<std::string> part = {"_raw", "_word", "_slash", "_backslash", "_dot", "_colon", "_number", "_underscore"};
        while (!end() && (part.count(at()) || (t[i].offset == t[i - 1].offset + t[i - 1].value.size() && "_" + lower(t[i].value) == at()))) {
            if (strict && t[i].offset != t[i - 1].offset + t[i - 1].value.size()) return BAD;
            i++;
        }
        return strict && i == from ? BAD : OK;
    }

    Verdict task() {
        TRY(strict ? need({"_label"}) : any());
        TRY(name());
        while (!end() && at() == "_with") {
            i++;
            TRY(need({"_goal", "_test"}));
            if (t[i - 1].label == "_goal") TRY(strict ? need({"_speed", "_accuracy", "_memory"}) : any());
            else TRY(name());
        }
        TRY(need({"_using"}));
        return name();
    }

    Verdict execute() {
        TRY(need({"_task"}));
        TRY(need({"_word"}));
        if (!end() && at() == "_with") {
            i++;
            TRY(need({"_label"}));
            TRY(need({"_word"}));
        }
        TRY(need({"_using"}));
        TRY(need({"_dataset", "_input"}));
        if (t[i - 1].label == "_dataset") return need({"_word"});
        TRY(need({"_open_parenthesis"}));
        int n = 0;
        while (!end() && at() != "_close_parenthesis") {
            TRY(need({"_word", "_string"}));
            TRY(need({"_colon"}));
            TRY(value());
            n++;
            if (end()) return INCOMPLETE;
            if (at() == "_comma") {
                i++;
                if (strict && !end() && at() == "_close_parenthesis") return BAD;
            } else if (strict && at() != "_close_parenthesis") return BAD;
        }
        if (strict && !end() && !n) return BAD;
        return need({"_close_parenthesis"});
    }

    Verdict scalar() {
        if (end()) return INCOMPLETE;
        if (at() == "_number") {
            auto &v = t[i].value;
            if (v == "." || v == "" || strtod(v.c_str(), nullptr) > 3.4e38) return BAD;
            if (strict && (!digit(v[0]) || v.back() == '.' || v.size() > 20)) return BAD;
        }
        return need({"_word", "_string", "_number"});
    }

    Verdict value() {
        if (end()) return INCOMPLETE;
        if (at() != "_open_bracket") return scalar();
        i++;
        bool first = true;
        while (!end() && at() != "_close_bracket") {
            if (strict) {
                if (!first) TRY(need({"_comma"}));
                TRY(scalar());
                first = false;
            } else if (at() == "_number") TRY(scalar());
            else i++;
        }
        if (strict && first && !end()) return BAD;
        return need({"_close_bracket"});
    }

#undef TRY
};

// "." alone is a number to the lexer or a dot: the grammar treats both alike
static std::vector<Tok> lexed(const std::string &text, bool &good) {
    std::vector<Tok> r;
    good = reference(text, r) == std::string::npos;
    return r;
}

static const std::vector<std::string> documented = {
    "help", "help dataset", "help task", "help future", "exit", "print raw titanic", "print pretty titanic", "print raw titanic limit 5", "print pretty titanic limit 5",
    "create dataset titanic with header with expected label Survived at 1 with given label Pclass at 2 with given number Age at 5 using file://../data/titanic/train.csv",
    "create dataset mnist_train with header with expected label value at 0 with given image pixels(28, 28) at 1 using file://../happyml_repo/raw/mnist_train.csv",
    "create dataset d with given image p (8, 8, 3) at 0 using file://a/test.tsv",
    "create dataset d with given text t at 0 with given number n (4) at 1 using file://x.txt",
    "create task label predict_survivor with goal accuracy with test titanic_test using titanic",
    "create task label t with goal speed using d", "create task label t with goal memory using d", "create task label t using d",
    "execute task my_task using dataset my_dataset", "execute task my_task with label my_label using dataset my_dataset",
    "execute task my_task using input (color: red, age: 5, name: \"John Doe\")", "execute task t with label l using input (key: \"value\", key: value, key: [0,1,2])",
    "execute task t using input (\"a b\": 1.5, c: [\"x\", y, 3])"};

}

#endif
