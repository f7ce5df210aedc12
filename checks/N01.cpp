// MC_FLAGS: -O2
// Eight-bit floats: every one of the 2^32 float bit patterns (and every 8-bit code) for each bias.
#include "mc.hpp"
#include "types/quarter_float.hpp"

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "N01";
    i.rule = "case = (bias, block of 2^24 consecutive float bit patterns); every pattern of a block is encoded and decoded by the "
             "real codec and compared with a reference built from the decoded code table; state = distinct (bias, resulting code); "
             "transition = one encode+decode";
    i.bounds_quick = {"all 2^32 float bit patterns for biases 4, 8 and 14; all 256 codes for biases 1..15; all code pairs for the four arithmetic operations at every combination of biases 4, 8 and 14"};
    i.bounds_thorough = {"all 2^32 float bit patterns for biases 1..15; all 256 codes; all code pairs for the four arithmetic operations at every bias"};
    i.assumptions = {"biases 1..15 only (the sizes the library uses are 4, 8 and 14)"};
    return i;
}

static float bits(uint32_t b) {
    float f;
    memcpy(&f, &b, 4);
    return f;
}

// the numbers the format can hold for a bias, magnitudes ascending, positive side then negative side
struct Table {
    std::vector<double> pos, neg;
    explicit Table(int bias) {
        std::set<double> p{0.0}, n{0.0};
        for (int c = 0; c < 256; c++) {
            if (c == QUARTER_NAN || (c & 0x7f) >= 0x78) continue;
            double v = quarterToFloat((quarter) c, bias);
            if (v >= 0) p.insert(v);
            if (v <= 0) n.insert(-v);
        }
        pos.assign(p.begin(), p.end());
        neg.assign(n.begin(), n.end());
    }
};

static void block(mc::Ctx &c, int bias, uint32_t hi8) {
    static std::map<int, Table> tables;
    auto it = tables.find(bias);
    if (it == tables.end()) it = tables.emplace(bias, Table(bias)).first;
    bool negative = hi8 & 0x80;
    const double small = quarterToFloat(1, bias);   // below it the format holds only zero and one reserved value
    auto &t = negative ? it->second.neg : it->second.pos;
    size_t k = 0;
    bool seen[256] = {false};
    double prev = -1;
    int failures = 0;
    for (uint32_t low = 0; low < (1u << 24) && failures < 3; low++) {
        if ((low & 0xfffff) == 0) c.transition(0);
        uint32_t b = (hi8 << 24) | low;
        float x = bits(b);
        quarter q = floatToQuarter(x, bias);
        seen[q] = true;
        float y = quarterToFloat(q, bias);
        auto bad = [&](const char *cls, const char *what) {
            failures++;
            char d[200];
            snprintf(d, sizeof d, "float bits %08x = %.9g encodes to 0x%02x = %.9g: %s", b, x, q, y, what);
            c.fail(cls, d);
        };
        uint32_t mag = b & 0x7fffffff;
        if (mag > 0x7f800000) {
            if (!std::isnan(y)) bad("nan", "not a number must stay not a number");
            continue;
        }
        if (mag == 0x7f800000) {
            if (!(y == x)) bad("inf", "infinity must stay infinity");
            continue;
        }
        if (!std::isfinite(y)) { bad("finite", "a finite value must stay finite"); continue; }
        double ax = std::fabs((double) x), ay = std::fabs((double) y);
        if (y != 0 && (y < 0) != negative) { bad("sign", "the sign changed"); continue; }
        if (ay < prev) bad("order", "a larger magnitude was given a smaller code");
        prev = ay;
        while (k + 1 < t.size() && t[k + 1] <= ax) k++;
        if (k + 1 == t.size()) {
            if (ay != t[k]) bad("clamp", "a value beyond the range must become the largest magnitude");
            continue;
        }
        double lo = t[k], hi = t[k + 1];
        if (ax < small) { if (ay > small) bad("tiny", "a tiny value grew beyond the smallest step"); continue; }
        if (ax == lo) { if (ay != lo) bad("exact", "a representable value must be kept exactly"); continue; }
        if (ay != lo && ay != hi) { bad("neighbour", "not one of the two neighbouring representable values"); continue; }
        {
            // nearest, except in the last step before a power of two, where the value is cut
            int e;
            bool top = std::frexp(hi, &e) == 0.5;
            if (std::fabs(ay - ax) > (hi - lo) / 2 && !(top && ay == lo)) bad("nearest", "not the nearest representable value");
        }
    }
    for (int i = 0; i < 256; i++) if (seen[i]) c.state((u_int64_t) bias << 8 | i);
    c.transition(1u << 24);
    c.trace();
}

static void explore(mc::Ctx &c) {
    for (int bias = 1; bias <= 15; bias++) {
        if (c.begin("codes of bias " + std::to_string(bias))) {
            std::map<float, int> seen;
            for (int i = 0; i < 256; i++) {
                float y = quarterToFloat((quarter) i, bias);
                c.transition();
                c.state((u_int64_t) bias << 8 | i);
                if (i == QUARTER_NAN) { c.check(std::isnan(y), "code", "0xff must be NaN"); continue; }
                if (i == QUARTER_POS_INFINITY || i == QUARTER_NEG_INFINITY) {
                    c.check(std::isinf(y) && (y > 0) == (i == QUARTER_POS_INFINITY), "code", "infinity code");
                    continue;
                }
                c.check(std::isfinite(y), "code", "code " + std::to_string(i) + " is not finite");
                if ((i & 0x7f) > 0x78) continue;   // beyond infinity: never produced
                if (!seen.emplace(y, i).second) c.fail("distinct", "codes " + std::to_string(i) + " and " + std::to_string(seen[y]) + " both mean " + mc::show(y));
                // the smallest magnitudes share one reserved code
                if (i == 0x80) { c.check(y > 0 && y < quarterToFloat(1, bias), "tiny", "reserved tiny value out of order: " + mc::show(y)); continue; }
                if (floatToQuarter(y, bias) != i)
                    c.fail("roundtrip", "code " + std::to_string(i) + " = " + mc::show(y) + " re-encodes to " + std::to_string(floatToQuarter(y, bias)));
            }
            c.check(floatToQuarter(0.0f, bias) == 0 && quarterToFloat(0, bias) == 0.0f, "zero", "zero must be kept");
            c.check(quarterToFloat(floatToQuarter(1.0f, bias), bias) == (bias == 15 ? quarterToFloat(QUARTER_MAX, bias) : 1.0f), "one", "one must be kept");
            c.trace();
        }
        // bias 0 is bias 1
        if (bias == 1 && c.begin("bias 0")) {
            for (int i = 0; i < 256; i++) {
                float y = quarterToFloat((quarter) i, 1), z = quarterToFloat((quarter) i, 0);
                c.check(memcmp(&y, &z, 4) == 0 && floatToQuarter(y, 0) == floatToQuarter(y, 1), "bias-0", "code " + std::to_string(i));
                c.transition(2);
            }
            c.trace();
        }
        if (bias == 4 || bias == 8 || bias == 14 || c.thorough)
            for (int op = 0; op < 4; op++)
                for (int bb: {4, 8, 14})
                    for (int rb: {4, 8, 14})
                        if (c.begin("arithmetic op " + std::to_string(op) + " biases " + std::to_string(bias) + " and " + std::to_string(bb) + " result bias " + std::to_string(rb)))
                            for (int a = 0; a < 256; a++)
                                for (int b = 0; b < 256; b++) {
                                    quarter r = op == 0 ? quarterAdd(a, bias, b, bb, rb) : op == 1 ? quarterSubtract(a, bias, b, bb, rb) :
                                                op == 2 ? quarterMultiply(a, bias, b, bb, rb) : quarterDivide(a, bias, b, bb, rb);
                                    float x = quarterToFloat(a, bias), y = quarterToFloat(b, bb);
                                    float e = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
                                    c.transition();
                                    if (r != floatToQuarter(e, rb)) c.fail("arithmetic", "codes " + std::to_string(a) + "," + std::to_string(b) + " gave " + std::to_string(r));
                                }
    }
    for (int bias = 1; bias <= 15; bias++) {
        if (!c.thorough && bias != 4 && bias != 8 && bias != 14) continue;
        for (uint32_t hi = 0; hi < 256; hi++) {
            if (!c.take()) continue;
            char d[100];
            snprintf(d, sizeof d, "bias %d floats %02x000000..%02xffffff", bias, hi, hi);
            c.desc(d);
            block(c, bias, hi);
        }
    }
}

}

MC_MAIN
