#include "fonts.h"
#include <cstdio>

namespace fontsim
{
namespace
{
struct Rnd
{
    sim::u64 s;
    uint32_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(s >> 33); }
    int in(int a, int b) { return a + (int)(next() % (uint32_t)(b - a + 1)); }
};
std::string num(long v) { return std::to_string(v); }
}

BdfFont makeBdf(sim::u64 seed, int pixels, uint32_t lastCode)
{
    Rnd r { seed * 2654435761u + 12345 };
    for (int i = 0; i < 4; ++i) r.next();
    BdfFont f;
    f.pixels = pixels;
    for (uint32_t c = 0x20; c <= lastCode; ++c)
    {
        if (c > '~' && c < 0xA0) continue;
        Glyph g;
        const bool empty = c == 0x20 && r.in(0, 1);
        g.width = empty ? 0 : r.in(1, pixels);
        g.height = empty ? 0 : r.in(1, pixels);
        g.left = r.in(-2, 3);
        const int bottom = r.in(-3, 4);
        g.top = bottom + g.height;
        g.advance = g.width + r.in(0, 4);
        for (int y = 0; y < g.height; ++y)
        {
            std::vector<bool> row;
            for (int x = 0; x < g.width; ++x) row.push_back(r.in(0, 2) != 0);
            g.rows.push_back(row);
        }
        f.glyphs[c] = g;
    }
    return f;
}

std::string BdfFont::file() const
{
    const std::string p = num(pixels);
    std::string s = "STARTFONT 2.1\nFONT -sim-test-medium-r-normal--" + p + "-" + p + "0-72-72-c-80-iso10646-1\nSIZE " + p + " 72 72\nFONTBOUNDINGBOX " + p +
                    " " + num(pixels + 8) + " -2 -4\nSTARTPROPERTIES 6\nFONT_ASCENT " + p + "\nFONT_DESCENT 4\nPIXEL_SIZE " + p +
                    "\nDEFAULT_CHAR 32\nCHARSET_REGISTRY \"ISO10646\"\nCHARSET_ENCODING \"1\"\nENDPROPERTIES\nCHARS " + num((long)glyphs.size()) + "\n";
    for (auto &[c, g]: glyphs)
    {
        char head[200];
        snprintf(head, sizeof head, "STARTCHAR u%04x\nENCODING %u\nSWIDTH 500 0\nDWIDTH %d 0\nBBX %d %d %d %d\nBITMAP\n", c, c, g.advance, g.width, g.height,
                 g.left, g.top - g.height);
        s += head;
        for (auto &row: g.rows)
        {
            for (size_t x = 0; x < row.size(); x += 8)
            {
                unsigned b = 0;
                for (size_t i = 0; i < 8; ++i) b = b * 2 + (x + i < row.size() && row[x + i]);
                char t[4];
                snprintf(t, sizeof t, "%02X", b);
                s += t;
            }
            s += '\n';
        }
        s += "ENDCHAR\n";
    }
    return s + "ENDFONT\n";
}

namespace
{
void w16(std::string &s, int v) { s += (char)(v >> 8); s += (char)v; }
void w32(std::string &s, uint32_t v) { w16(s, (int)(v >> 16)); w16(s, (int)(v & 0xFFFF)); }
}

std::string makeTtf(sim::u64 seed, uint32_t lastCode)
{
    Rnd r { seed * 40503u + 777 };
    for (int i = 0; i < 4; ++i) r.next();
    const int n = 1 + (int)(lastCode - 0x20 + 1);
    std::string glyf, loca, hmtx;
    for (int i = 0; i < n; ++i)
    {
        w32(loca, (uint32_t)glyf.size());
        const int contours = i == 1 ? 0 : r.in(1, 3);
        const int adv = r.in(300, 1000);
        int xmin = 0;
        if (contours)
        {
            std::string ends, flags, xs, ys;
            int px = 0, py = 0, pts = 0, x0 = 9999, x1 = -9999, y0 = 9999, y1 = -9999;
            for (int c = 0; c < contours; ++c)
            {
                const int k = r.in(3, 6);
                pts += k;
                w16(ends, pts - 1);
                for (int j = 0; j < k; ++j)
                {
                    const int x = r.in(-100, 900), y = r.in(-200, 800);
                    flags += (char)(r.in(0, 3) ? 1 : 0);
                    w16(xs, x - px);
                    w16(ys, y - py);
                    px = x;
                    py = y;
                    x0 = std::min(x0, x); x1 = std::max(x1, x);
                    y0 = std::min(y0, y); y1 = std::max(y1, y);
                }
            }
            xmin = x0;
            w16(glyf, contours); w16(glyf, x0); w16(glyf, y0); w16(glyf, x1); w16(glyf, y1);
            glyf += ends;
            w16(glyf, 0);
            glyf += flags + xs + ys;
            while (glyf.size() % 4) glyf += '\0';
        }
        w16(hmtx, adv);
        w16(hmtx, xmin);
    }
    w32(loca, (uint32_t)glyf.size());
    std::string head;
    w32(head, 0x10000); w32(head, 0x10000); w32(head, 0); w32(head, 0x5F0F3CF5); w16(head, 0); w16(head, 1000);
    w32(head, 0); w32(head, 0); w32(head, 0); w32(head, 0);
    w16(head, -100); w16(head, -200); w16(head, 900); w16(head, 800); w16(head, 0); w16(head, 8); w16(head, 2); w16(head, 1); w16(head, 0);
    std::string hhea;
    w32(hhea, 0x10000); w16(hhea, 900); w16(hhea, -250); w16(hhea, 50); w16(hhea, 1000);
    for (int i = 0; i < 11; ++i) w16(hhea, 0);
    w16(hhea, n);
    std::string maxp;
    w32(maxp, 0x10000); w16(maxp, n); w16(maxp, 20); w16(maxp, 5);
    for (int i = 0; i < 11; ++i) w16(maxp, i == 2 ? 2 : 0);
    // cmap: one segment plus the final one
    std::string sub;
    w16(sub, 4); w16(sub, 32); w16(sub, 0); w16(sub, 4); w16(sub, 4); w16(sub, 1); w16(sub, 0);
    w16(sub, (int)lastCode); w16(sub, 0xFFFF); w16(sub, 0);
    w16(sub, 0x20); w16(sub, 0xFFFF);
    w16(sub, 1 - 0x20); w16(sub, 1);
    w16(sub, 0); w16(sub, 0);
    std::string cmap;
    w16(cmap, 0); w16(cmap, 1); w16(cmap, 3); w16(cmap, 1); w32(cmap, 12);
    cmap += sub;
    std::map<std::string, std::string> t { { "cmap", cmap }, { "glyf", glyf }, { "head", head }, { "hhea", hhea }, { "hmtx", hmtx }, { "loca", loca }, { "maxp", maxp } };
    std::string f;
    w32(f, 0x10000); w16(f, (int)t.size()); w16(f, 64); w16(f, 2); w16(f, (int)t.size() * 16 - 64);
    uint32_t off = (uint32_t)(12 + 16 * t.size());
    std::string body;
    for (auto &[name, d]: t)
    {
        f += name;
        w32(f, 0);
        w32(f, off + (uint32_t)body.size());
        w32(f, (uint32_t)d.size());
        body += d;
        while (body.size() % 4) body += '\0';
    }
    return f + body;
}
}
