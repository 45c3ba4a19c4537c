// What the tasks of a PAR step do: the life of a full node and a pollard of their own, and questions about shared objects.
#pragma once
#include "rng.h"
#include "sha.h"
#include <array>
#include <cstdint>
#include <string>
#include <vector>

using Notes = std::vector<std::string>; // the answers, one line each
std::array<uint8_t, 32> leaf_hash(uint64_t c, uint32_t collide);
struct Life {
    uint64_t seed;
    uint32_t file, maxleaves, collide;
};
// A pure function of l as far as the answers go. `path`: where the forest is kept if it is kept in a file.
void live(const Life& l, const std::string& path, Notes& out);
// The same in a process of its own in which the library has not been used before; false if that process died.
// Also returns how many points it passed.
bool live_alone(const Life& l, const std::string& path, Notes& out, uint64_t& points);
void start_zygote();
