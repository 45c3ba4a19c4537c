// Reference model of the accumulator: a plain list of leaves plus the swap-deletion rules, written independently of
// /repo (subtrees are moved as whole objects; there is no position arithmetic beyond "row r, index i").
#pragma once
#include "sha.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <vector>

namespace ref {
using H = std::array<uint8_t, 32>;
struct HHash {
    size_t operator()(const H& h) const
    {
        uint64_t x = 0, y;
        for (int i = 0; i < 4; i++) {
            memcpy(&y, h.data() + 8 * i, 8);
            x = (x ^ y) * 0x9e3779b97f4a7c15ULL;
            x ^= x >> 29;
        }
        return x;
    }
};
struct H64 {
    std::array<uint8_t, 64> v;
    bool operator==(const H64& o) const { return v == o.v; }
};
struct H64Hash {
    size_t operator()(const H64& h) const
    {
        H a;
        memcpy(a.data(), h.v.data() + 16, 32);
        H b;
        memcpy(b.data(), h.v.data(), 32);
        return HHash()(a) * 31 + HHash()(b);
    }
};
inline H parent(const H& l, const H& r)
{
    static std::unordered_map<H64, H, H64Hash> memo;
    H64 k;
    memcpy(k.v.data(), l.data(), 32);
    memcpy(k.v.data() + 32, r.data(), 32);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (memo.size() > 1000000) memo.clear();
    return memo[k] = sha512_256(k.v.data(), 64);
}

struct State {
    std::vector<std::vector<H>> rows; // rows[r][i], i < n >> r
    std::unordered_map<H, uint64_t, HHash> pos;
    std::vector<H> roots; // tallest tree first

    uint64_t n() const { return rows[0].size(); }
    const std::vector<H>& leaves() const { return rows[0]; }
    bool is_root(unsigned r, uint64_t i) const { return r < rows.size() && (n() >> r) == i + 1 && ((n() >> r) & 1); }

    explicit State(std::vector<H> lv = {})
    {
        rows.push_back(std::move(lv));
        uint64_t cnt = rows[0].size();
        for (uint64_t i = 0; i < cnt; i++) pos[rows[0][i]] = i;
        for (unsigned r = 0; (cnt >> (r + 1)) > 0; r++) {
            std::vector<H> up;
            for (uint64_t i = 0; i < (cnt >> (r + 1)); i++) up.push_back(parent(rows[r][2 * i], rows[r][2 * i + 1]));
            rows.push_back(std::move(up));
        }
        for (int r = (int)rows.size() - 1; r >= 0; r--)
            if ((cnt >> r) & 1) roots.push_back(rows[r][(cnt >> r) - 1]);
    }

    // Positions of a proof's hashes as (row, index), ascending.
    std::vector<std::pair<unsigned, uint64_t>> proof_at(const std::vector<uint64_t>& targets) const
    {
        std::vector<std::pair<unsigned, uint64_t>> out;
        std::set<uint64_t> known(targets.begin(), targets.end());
        for (unsigned r = 0; r < rows.size() && !known.empty(); r++) {
            std::set<uint64_t> up;
            for (uint64_t i : known) {
                if (is_root(r, i)) continue;
                if (!known.count(i ^ 1)) out.push_back({r, i ^ 1});
                up.insert(i >> 1);
            }
            known = up;
        }
        std::sort(out.begin(), out.end());
        return out;
    }
    std::vector<H> proof(const std::vector<uint64_t>& targets) const
    {
        std::vector<H> out;
        for (auto [r, i] : proof_at(targets)) out.push_back(rows[r][i]);
        return out;
    }
};

// Leaf order after deleting `targets` (sorted positions) from `lv`.
inline std::vector<H> remove(const std::vector<H>& lv, const std::vector<uint64_t>& targets)
{
    struct N {
        int l, r;
        bool dead;
        int leaf;
    };
    std::vector<N> pool;
    std::vector<int> cur;
    for (size_t i = 0; i < lv.size(); i++) {
        pool.push_back({-1, -1, false, (int)i});
        cur.push_back((int)i);
    }
    for (uint64_t t : targets) pool[t].dead = true;
    std::vector<int> kept; // one survivor tree per row at most, from row 0 up
    while (!cur.empty()) {
        int root = -1;
        if (cur.size() & 1) {
            root = cur.back();
            cur.pop_back();
            if (pool[root].dead) root = -1;
        }
        std::vector<bool> pair_dead(cur.size() / 2, false);
        std::vector<size_t> half; // dead slots whose sibling lives
        for (size_t i = 0; i < cur.size(); i += 2) {
            bool a = pool[cur[i]].dead, b = pool[cur[i + 1]].dead;
            if (a && b) pair_dead[i / 2] = true;
            else if (a || b) half.push_back(a ? i : i + 1);
        }
        int keep = -1;
        size_t k = 0;
        for (; k + 1 < half.size(); k += 2) {
            cur[half[k]] = cur[half[k + 1] ^ 1];
            pair_dead[half[k + 1] / 2] = true;
        }
        if (k < half.size()) {
            size_t t = half[k];
            if (root >= 0) {
                cur[t] = root;
                root = -1;
            } else {
                keep = cur[t ^ 1];
                pair_dead[t / 2] = true;
            }
        }
        if (root >= 0) keep = root;
        kept.push_back(keep);
        std::vector<int> up;
        for (size_t i = 0; i < cur.size(); i += 2) {
            pool.push_back({cur[i], cur[i + 1], (bool)pair_dead[i / 2], -1});
            up.push_back((int)pool.size() - 1);
        }
        cur = up;
    }
    std::vector<H> out;
    std::vector<int> stack;
    for (int k : kept)
        if (k >= 0) stack.push_back(k); // tallest tree is popped first
    while (!stack.empty()) {
        int x = stack.back();
        stack.pop_back();
        if (pool[x].leaf >= 0) out.push_back(lv[pool[x].leaf]);
        else {
            stack.push_back(pool[x].r);
            stack.push_back(pool[x].l);
        }
    }
    return out;
}
// The same rules for forests of any size of which only the surroundings of a few leaves are known: everything else is
// an opaque subtree, that is, a hash.
struct Sparse {
    struct T;
    using TP = std::shared_ptr<const T>;
    struct T {
        H h;
        unsigned row;
        TP l, r;
    };
    uint64_t n = 0;
    std::map<unsigned, TP> roots; // by row

    static TP make(const TP& l, const TP& r)
    {
        auto t = std::make_shared<T>();
        t->h = parent(l->h, r->h);
        t->row = l->row + 1;
        t->l = l;
        t->r = r;
        return t;
    }
    static TP leaf(const H& h, unsigned row = 0)
    {
        auto t = std::make_shared<T>();
        t->h = h;
        t->row = row;
        return t;
    }
    TP find(unsigned r, uint64_t i) const
    { // node i of row r, null where it is not known
        if (i >= (n >> r)) return nullptr;
        uint64_t at = i << r, off = 0;
        for (auto it = roots.rbegin(); it != roots.rend(); ++it) {
            unsigned R = it->first;
            if (at - off < (uint64_t(1) << R)) {
                if (R < r) return nullptr;
                TP x = it->second;
                while (x && x->row > r) x = (((at - off) >> (x->row - 1)) & 1) ? x->r : x->l;
                return x;
            }
            off += uint64_t(1) << R;
        }
        return nullptr;
    }
    bool is_root(unsigned r, uint64_t i) const { return ((n >> r) & 1) && (n >> r) == i + 1; }
    std::vector<H> root_hashes() const
    {
        std::vector<H> v;
        for (auto it = roots.rbegin(); it != roots.rend(); ++it) v.push_back(it->second->h);
        return v;
    }
    void leaves(std::map<uint64_t, H>& out) const
    {
        uint64_t off = 0;
        for (auto it = roots.rbegin(); it != roots.rend(); ++it) {
            walk(it->second, off, out);
            off += uint64_t(1) << it->first;
        }
    }
    static void walk(const TP& t, uint64_t off, std::map<uint64_t, H>& out)
    {
        if (t->row == 0) out[off] = t->h;
        else if (t->l) {
            walk(t->l, off, out);
            walk(t->r, off + (uint64_t(1) << (t->row - 1)), out);
        }
    }
    std::vector<std::pair<unsigned, uint64_t>> proof_at(const std::vector<uint64_t>& targets) const
    {
        std::vector<std::pair<unsigned, uint64_t>> out;
        std::set<uint64_t> known(targets.begin(), targets.end());
        for (unsigned r = 0; r < 64 && !known.empty(); r++) {
            std::set<uint64_t> up;
            for (uint64_t i : known) {
                if (is_root(r, i)) continue;
                if (!known.count(i ^ 1)) out.push_back({r, i ^ 1});
                up.insert(i >> 1);
            }
            known = up;
        }
        return out;
    }
    std::vector<H> proof(const std::vector<uint64_t>& targets) const
    {
        std::vector<H> out;
        for (auto [r, i] : proof_at(targets)) {
            TP x = find(r, i);
            out.push_back(x ? x->h : H());
        }
        return out;
    }
    void add(const H& h)
    {
        TP x = leaf(h);
        for (unsigned r = 0; (n >> r) & 1; r++) {
            x = make(roots.at(r), x);
            roots.erase(r);
        }
        roots[x->row] = x;
        n++;
    }
    // the deletions must be of known leaves
    void remove(const std::vector<uint64_t>& targets)
    {
        std::map<uint64_t, TP> ov;
        std::set<uint64_t> dead(targets.begin(), targets.end());
        std::map<unsigned, TP> kept;
        for (unsigned r = 0; r < 64 && (n >> r); r++) {
            uint64_t len = n >> r;
            auto get = [&](uint64_t i) {
                auto it = ov.find(i);
                return it != ov.end() ? it->second : find(r, i);
            };
            TP root;
            if (len & 1) {
                len--;
                if (!dead.count(len)) root = get(len);
                ov.erase(len); // (kept in `root` if it lives)
            }
            std::vector<uint64_t> half;
            std::set<uint64_t> up_dead;
            for (uint64_t i : dead) {
                if (i >= len) continue;
                if (dead.count(i ^ 1)) up_dead.insert(i >> 1);
                else
                    half.push_back(i);
            }
            TP keep;
            size_t k = 0;
            for (; k + 1 < half.size(); k += 2) {
                TP moved = get(half[k + 1] ^ 1);
                ov[half[k]] = moved;
                up_dead.insert(half[k + 1] >> 1);
            }
            if (k < half.size()) {
                if (root) {
                    ov[half[k]] = root;
                    root = nullptr;
                } else {
                    keep = get(half[k] ^ 1);
                    up_dead.insert(half[k] >> 1);
                }
            }
            if (root) keep = root;
            if (keep) kept[r] = keep;
            std::map<uint64_t, TP> nov;
            for (auto& [i, x] : ov)
                if (!up_dead.count(i >> 1)) nov[i >> 1] = make(get(i & ~uint64_t(1)), get(i | 1));
            ov = std::move(nov);
            dead = std::move(up_dead);
        }
        roots = kept;
        n -= targets.size();
    }
};
} // namespace ref
