// MC_FLAGS: -O2
// Sixteen-bit floats and the portable byte order: every bit pattern.
#include "mc.hpp"
#include "types/half_float.hpp"
#include "util/portable_bytes.hpp"

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "N02";
    i.rule = "case = block of 2^24 consecutive 32-bit patterns, run through the 16-bit float codec and through the 32-bit portable byte "
             "order; further cases: all 2^16 sixteen-bit codes, and 64-bit words with every byte value in every pair of positions; state = "
             "distinct sixteen-bit code; transition = one conversion";
    i.bounds_quick = {"all 2^32 32-bit patterns (codec and byte order)", "all 2^16 16-bit patterns", "64-bit: every value of every pair of bytes, other bytes 0x00 or 0xff"};
    i.assumptions = {"little-endian host, as in this sandbox; the portable order is big-endian"};
    return i;
}

static float bits(uint32_t b) {
    float f;
    memcpy(&f, &b, 4);
    return f;
}

static uint32_t unbits(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}

static void explore(mc::Ctx &c) {
    for (uint32_t hi = 0; hi < 256; hi++) {
        if (!c.take()) continue;
        char d[100];
        snprintf(d, sizeof d, "patterns %02x000000..%02xffffff", hi, hi);
        c.desc(d);
        int failures = 0;
        uint32_t prev = 0;
        for (uint32_t low = 0; low < (1u << 24) && failures < 4; low++) {
            if ((low & 0xfffff) == 0) c.beat();
            uint32_t b = hi << 24 | low;
            float x = bits(b);
            half h = floatToHalf(x);
            float y = halfToFloat(h);
            auto bad = [&](const char *cls) {
                failures++;
                char t[200];
                snprintf(t, sizeof t, "bits %08x = %.9g became 0x%04x = %.9g (bits %08x)", b, x, h, y, unbits(y));
                c.fail(cls, t);
            };
            uint32_t mag = b & 0x7fffffff;
            if (mag > 0x7f800000) {
                if (!std::isnan(y)) bad("nan");
            } else if (mag == 0x7f800000) {
                if (unbits(y) != b) bad("infinity");
            } else {
                if (!std::isfinite(y)) bad("finite");
                else {
                    if ((unbits(y) ^ b) >> 31) bad("sign");
                    double ax = std::fabs((double) x), ay = std::fabs((double) y);
                    if (ay > ax) bad("towards-zero");
                    if (mag >= 0x00800000 && (ax - ay) > ax / 128) bad("relative-error");
                    if (mag < 0x00800000 && (ax - ay) > std::ldexp(1.0, -133)) bad("tiny-error");
                    uint32_t ym = unbits(y) & 0x7fffffff;
                    if (ym < prev) bad("order");
                    prev = ym;
                }
            }
            if (!std::isnan(y) && floatToHalf(y) != h) bad("idempotent");
            // portable bytes: big-endian in memory
            uint32_t p = portableBytes(b);
            unsigned char q[4];
            memcpy(q, &p, 4);
            if (q[0] != (unsigned char) (b >> 24) || q[1] != (unsigned char) (b >> 16) || q[2] != (unsigned char) (b >> 8) || q[3] != (unsigned char) b)
                bad("byte-order-32");
            if (portableBytes(p) != b) bad("byte-order-32-inverse");
            float pf = portableFloat(p);
            if (unbits(pf) != b && !(std::isnan(pf) && std::isnan(x))) bad("portable-float");
            if ((low & 0xffff) == 0) c.state(h);
        }
        c.transition(1u << 24);
        c.trace();
    }
    if (c.begin("all sixteen-bit codes")) {
        for (uint32_t h = 0; h < 65536; h++) {
            float y = halfToFloat((half) h);
            c.state(h);
            c.transition(2);
            if (std::isnan(y)) c.check(std::isnan(halfToFloat(floatToHalf(y))), "code-nan", std::to_string(h));
            else c.check(floatToHalf(y) == h, "code-roundtrip", std::to_string(h) + " = " + mc::show(y) + " -> " + std::to_string(floatToHalf(y)));
            uint16_t p = portableBytes((uint16_t) h);
            unsigned char q[2];
            memcpy(q, &p, 2);
            c.check(q[0] == h >> 8 && q[1] == (h & 255), "byte-order-16", std::to_string(h));
        }
        c.trace();
    }
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < i; j++)
            for (int fill = 0; fill < 2; fill++)
                if (c.begin("64-bit words: bytes " + std::to_string(i) + "," + std::to_string(j) + " fill " + std::to_string(fill))) {
                    for (int a = 0; a < 256; a++)
                        for (int b = 0; b < 256; b++) {
                            unsigned char want[8];
                            for (auto &w: want) w = fill ? 255 : 0;
                            want[i] = a;
                            want[j] = b;
                            uint64_t v = 0;
                            for (unsigned char w: want) v = v << 8 | w;
                            uint64_t p = portableBytes(v);
                            if (memcmp(&p, want, 8) != 0 || portableBytes(p) != v) c.fail("byte-order-64", std::to_string(v));
                            c.transition(2);
                        }
                    c.trace();
                }
}

}

MC_MAIN
