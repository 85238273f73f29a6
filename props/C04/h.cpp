// Memory streams behave as a fixed-size file over their buffer.
#include "sx.h"
#include <common/cmdlib.hh>
#include <cstring>

// reference model: position, failed flag
struct model
{
    long size, pos = 0;
    bool bad = false;
};
static bool ref_seek(model &m, long off, int dir)
{
    if (m.bad) return false;
    long base = dir == 0 ? 0 : dir == 1 ? m.pos : m.size;
    long t = base + off;
    if (t < 0 || t > m.size) { m.bad = true; return false; }
    m.pos = t;
    return true;
}
static const std::ios_base::seekdir DIR[3] = {std::ios_base::beg, std::ios_base::cur, std::ios_base::end};

// any short sequence of reads and seeks over a buffer of any content
SX_ENTRY(reading)
{
    const int size = (int)sx_param(0), steps = (int)sx_param(1);
    uint8_t *buf = new uint8_t[size ? size : 1];
    if (size) sx_symbolic(buf, size, "buf");
    imemstream s(buf, size);
    model m{size};
    for (int i = 0; i < steps; i++) {
        uint32_t op = sx_choice(4, "op");
        if (op == 0) {
            int n = (int)sx_choice(size + 2, "n");
            uint8_t *o = new uint8_t[n + 1];
            for (int k = 0; k <= n; k++) o[k] = 0xa5;
            s.read((char *)o, n);
            long want = m.bad ? 0 : std::min<long>(n, m.size - m.pos);
            sx_assert(s.gcount() == want, "number of bytes read");
            bool same = true;
            for (int k = 0; k <= n; k++) same &= o[k] == (k < want ? buf[m.pos + k] : 0xa5);
            sx_assert(same, "bytes read differ from the buffer, or were stored past the count");
            m.pos += want;
            if (want != n) m.bad = true;
            delete[] o;
        } else if (op == 1) {
            long off = sx_range<int>(-(size + 2), size + 2, "off");
            uint32_t d = sx_choice(3, "dir");
            s.seekg(off, DIR[d]);
            ref_seek(m, off, d);
        } else if (op == 2) {
            uint16_t v = 0;
            s >= v;
            long want = m.bad ? 0 : std::min<long>(2, m.size - m.pos);
            if (want == 2) sx_assert(v == (uint16_t)(buf[m.pos] | (buf[m.pos + 1] << 8)), "value read");
            m.pos += want;
            if (want != 2) m.bad = true;
        } else {
            long off = sx_range<int>(-(size + 2), size + 2, "pos");
            s.seekg(std::streampos(off));
            ref_seek(m, off, 0);
        }
        sx_assert(s.fail() == m.bad, "stream state after the operation");
        sx_assert((long)s.tellg() == (m.bad ? -1 : m.pos), "stream position after the operation");
    }
    sx_reach("reading");
    delete[] buf;
}
SX_ENTRY(writing)
{
    const int size = (int)sx_param(0), steps = (int)sx_param(1);
    uint8_t *buf = new uint8_t[size ? size : 1], *ref = new uint8_t[size ? size : 1];
    for (int i = 0; i < size; i++) buf[i] = ref[i] = (uint8_t)(0x40 + i);
    omemstream s(buf, size);
    model m{size};
    for (int i = 0; i < steps; i++) {
        uint32_t op = sx_choice(3, "op");
        if (op == 0) {
            int n = (int)sx_choice(size + 2, "n");
            uint8_t *o = new uint8_t[n ? n : 1];
            if (n) sx_symbolic(o, n, "data");
            s.write((char *)o, n);
            if (!m.bad) {
                long k = std::min<long>(n, m.size - m.pos);
                // a short write stores what fits
                for (long j = 0; j < k; j++) ref[m.pos + j] = o[j];
                m.pos += k;
                if (k != n) m.bad = true;
            }
            delete[] o;
        } else if (op == 1) {
            long off = sx_range<int>(-(size + 2), size + 2, "off");
            uint32_t d = sx_choice(3, "dir");
            s.seekp(off, DIR[d]);
            ref_seek(m, off, d);
        } else {
            uint32_t v = sx_any<uint32_t>("v");
            s <= v;
            if (!m.bad) {
                long k = std::min<long>(4, m.size - m.pos);
                for (long j = 0; j < k; j++) ref[m.pos + j] = (uint8_t)(v >> (8 * j));
                m.pos += k;
                if (k != 4) m.bad = true;
            }
        }
        sx_assert(s.fail() == m.bad, "stream state after the operation");
        sx_assert((long)s.tellp() == (m.bad ? -1 : m.pos), "stream position after the operation");
    }
    bool same = true;
    for (int i = 0; i < size; i++) same &= buf[i] == ref[i];
    sx_assert(same, "buffer content after the operations");
    sx_reach("writing");
    delete[] buf; delete[] ref;
}
// the size-counting stream: appending counts every byte
SX_ENTRY(counting)
{
    omemsizestream s;
    long n = 0;
    for (int i = 0; i < (int)sx_param(0); i++) {
        switch (sx_choice(4, "op")) {
            case 0: { uint8_t k = (uint8_t)sx_choice(4, "n"); char b[4] = {}; s.write(b, k); n += k; } break;
            case 1: s <= sx_any<uint32_t>("v"); n += 4; break;
            case 2: s.put(7); n += 1; break;
            case 3: s <= padding<3>{}; n += 3; break;
        }
        sx_assert(s.good(), "counting stream failed");
        sx_assert((long)s.tellp() == n, "size counted differs from the bytes written");
    }
    sx_reach("counting");
}
// CRC-16/XMODEM-style block checksum equals its bitwise definition
SX_ENTRY(crc)
{
    const int n = (int)sx_param(0);
    uint8_t b[8];
    sx_symbolic(b, n ? n : 1, "data");
    uint16_t c = CRC_Block(b, n), r = 0xffff;
    for (int i = 0; i < n; i++) {
        r ^= (uint16_t)(b[i] << 8);
        for (int k = 0; k < 8; k++) r = (uint16_t)((r & 0x8000) ? (r << 1) ^ 0x1021 : r << 1);
    }
    sx_assert(c == r, "block checksum differs from CCITT CRC-16");
    sx_reach("crc");
}
