// Fonts for the simulated converter runs, made up from a seed.
#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>

namespace fontsim
{
struct Glyph { int width, height, left, top, advance; std::vector<std::vector<bool>> rows; };
struct BdfFont
{
    int pixels;
    std::map<uint32_t, Glyph> glyphs;    // by code point
    std::string file() const;
};
BdfFont makeBdf(sim::u64 seed, int pixels, uint32_t lastCode);
std::string makeTtf(sim::u64 seed, uint32_t lastCode);
}
