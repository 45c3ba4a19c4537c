// Trace generation (a pure function of property and seed) and the text form of traces.
#include "world.h"
#include <cstring>
#include <sstream>

struct W {
    Kind k;
    uint32_t w;
};
static std::vector<W> profile(int prop)
{
    std::vector<W> base = {{MINE, 10}, {BSTEP, 8}, {BRUN, 2}, {SYNC, 10}, {SEND, 2}, {DELIVER, 3}, {FORK, 1}};
    auto add = [&](std::initializer_list<W> x) {
        for (auto& w : x) {
            bool f = false;
            for (auto& b : base)
                if (b.k == w.k) b.w = w.w, f = true;
            if (!f) base.push_back(w);
        }
    };
    switch (prop) {
    case 1: add({{FORK, 3}, {BREOPEN, 3}, {BCRASH, 2}, {CPRUNE, 2}, {CREBUILD, 2}, {CATTACK, 4}, {CQUERY, 6}, {CPROVE, 1}, {BBAD, 1}, {CBAD, 1}, {CLOCAL, 2}, {BQALLOC, 1}, {CALLOC, 2}, {BDISKERR, 1}}); break;
    case 2: add({{BPROVE, 8}, {FORK, 3}, {BREOPEN, 2}, {CQUERY, 4}, {CPROVE, 1}, {BCRASH, 1}}); break;
    case 3: add({{SEND, 8}, {DELIVER, 12}, {CATTACK, 6}, {CQUERY, 4}, {FORK, 2}, {CPRUNE, 1}, {CTRIM, 1}, {CLOCAL, 1}, {CALLOC, 2}, {CBAD, 1}, {BREOPEN, 1}, {WIRE, 2}, {FLOOD, 1}}); break;
    case 4: add({{CATTACK, 30}, {CQUERY, 6}, {CLOCAL, 2}, {CALLOC, 4}, {CPRUNE, 1}, {DELIVER, 5}, {FORK, 2}, {CTRIM, 2}, {FLOOD, 1}}); break;
    case 5: add({{CATTACK, 26}, {CQUERY, 6}, {DELIVER, 6}, {CLOCAL, 1}, {FORK, 1}, {CPRUNE, 1}, {CTRIM, 2}, {FLOOD, 1}}); break;
    case 6: add({{CPROVE, 10}, {CQUERY, 10}, {CLOCAL, 5}, {SYNC, 14}, {CATTACK, 3}, {CTRIM, 1}, {FORK, 1}, {CPRUNE, 1}}); break;
    case 7: add({{CPROVE, 10}, {BPROVE, 6}, {CPRUNE, 3}, {CREBUILD, 2}, {FORK, 4}, {CQUERY, 8}, {CATTACK, 3}, {BREOPEN, 1}}); break;
    case 8: add({{CTRIM, 22}, {CQUERY, 8}, {CATTACK, 2}, {CLOCAL, 4}, {CPRUNE, 1}}); break;
    case 9: add({{FORK, 8}, {BSTEP, 14}, {BRUN, 4}, {BREOPEN, 3}, {BCRASH, 1}, {BPROVE, 3}, {SYNC, 2}}); break;
    case 10: add({{BREOPEN, 12}, {FORK, 3}, {BSTEP, 12}, {BCOMMIT, 3}, {BPROVE, 3}, {SYNC, 2}, {BCRASH, 1}, {BQALLOC, 1}, {BVERIFY, 1}}); break;
    case 11: add({{BCOMMIT, 7}, {BCRASH, 12}, {BSTEP, 14}, {BRUN, 4}, {FORK, 2}, {BREOPEN, 2}, {SYNC, 1}, {BDISKERR, 2}}); break;
    case 12: add({{BCOMMIT, 4}, {BCRASH, 14}, {BNEWCRASH, 3}, {BSTEP, 14}, {BRUN, 4}, {FORK, 2}, {BREOPEN, 1}, {SYNC, 1}}); break;
    case 13: add({{BCOMMIT, 4}, {BDISKERR, 16}, {BSTEP, 14}, {BRUN, 4}, {FORK, 1}, {BREOPEN, 1}, {BCRASH, 1}, {SYNC, 1}}); break;
    case 14: add({{BREADERR, 7}, {BDAMAGE, 9}, {BSTEP, 14}, {BRUN, 4}, {BCOMMIT, 2}, {BREOPEN, 1}, {FORK, 1}, {SYNC, 1}}); break;
    case 15: add({{WIRE, 22}, {DELIVER, 8}, {SEND, 5}, {FORK, 2}, {CATTACK, 1}, {FLOOD, 1}}); break;
    case 16: add({{BQALLOC, 8}, {CALLOC, 20}, {CQUERY, 6}, {CATTACK, 3}, {CPRUNE, 1}, {CPROVE, 1}}); break;
    case 17: add({{BALLOC, 18}, {FORK, 4}, {BCOMMIT, 4}, {BREOPEN, 1}, {BCRASH, 1}, {SYNC, 1}}); break;
    case 18: add({{BBAD, 12}, {CBAD, 9}, {CQUERY, 5}, {FORK, 2}, {BREOPEN, 1}, {CATTACK, 1}, {FLOOD, 1}}); break;
    case 19: add({{CATTACK, 6}, {CQUERY, 9}, {CPRUNE, 2}, {CREBUILD, 2}, {BREOPEN, 2}, {CALLOC, 4}, {BALLOC, 2}, {BCRASH, 1}, {CLOCAL, 3}, {CTRIM, 2}, {BDISKERR, 1}, {BREADERR, 1}, {BDAMAGE, 1}, {CBAD, 1}, {WIRE, 1}, {BQALLOC, 1}}); break;
    case 20: add({{BVERIFY, 26}, {BPROVE, 3}, {BREOPEN, 2}, {FORK, 3}, {CPROVE, 2}, {CQUERY, 2}, {BQALLOC, 2}, {FLOOD, 1}}); break;
    case 23: add({{BCOMPARE, 20}, {FORK, 5}, {BSTEP, 14}, {BREOPEN, 2}, {CPROVE, 8}, {CQUERY, 5}, {CPRUNE, 1}, {SYNC, 6}, {BBAD, 1}, {BCRASH, 1}, {REUSE, 6}}); break;
    case 25: add({{REUSE, 24}, {FORK, 4}, {BSTEP, 12}, {CQUERY, 6}, {CLOCAL, 2}, {BREOPEN, 2}, {CPRUNE, 1}, {CTRIM, 1}, {CATTACK, 2}, {BVERIFY, 2}, {BBAD, 1}, {BQALLOC, 1}}); break;
    case 26: add({{PAR, 24}, {FORK, 2}, {BREOPEN, 1}, {CQUERY, 6}, {CLOCAL, 2}, {CTRIM, 1}, {CATTACK, 1}}); break;
    case 24: add({{CATTACK, 20}, {WIRE, 10}, {DELIVER, 8}, {SEND, 5}, {BVERIFY, 10}, {BBAD, 5}, {CBAD, 5}, {CQUERY, 3}, {FORK, 2}, {CTRIM, 1}, {CLOCAL, 1}, {BREOPEN, 1}, {FLOOD, 3}}); break;
    default: break;
    }
    return base;
}

Trace generate(int prop, uint64_t seed, bool thorough)
{
    Rng r(hash2(seed, 0x51u + (uint64_t)prop));
    Trace t;
    t.prop = prop;
    t.seed = seed;
    bool disk = prop >= 10 && prop <= 14;
    bool clienty = prop == 3 || (prop >= 4 && prop <= 8) || prop == 16 || prop == 19 || prop == 24;
    t.cfg.nb = 1 + (uint32_t)r.below(prop == 1 || prop == 2 || prop == 10 || prop == 23 ? 3 : 2);
    t.cfg.nc = 1 + (uint32_t)r.below(prop == 1 || prop == 6 || prop == 3 ? 3 : 2);
    t.cfg.files = (uint32_t)r.below(8);
    if (disk || prop == 17 || prop == 9) t.cfg.files |= 1;
    if (clienty && !r.chance(1, 4)) t.cfg.files = 0; // keep the disk out of it most of the time
    if (disk && t.cfg.nb > 1 && r.chance(1, 2)) t.cfg.files &= ~2u;
    t.cfg.files |= (uint32_t)(hash2(seed, 0xF11E) % 12) << 8; // how the files are called (6 and above: plainly)
    static const uint32_t sizes[] = {3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 48, 64};
    t.cfg.maxleaves = sizes[r.below(14)];
    uint64_t big = r.below(thorough ? 12 : 25);
    if (big == 0) t.cfg.maxleaves = 100 + (uint32_t)r.below(thorough ? 500 : 200);
    if ((prop == 12 || prop == 11 || prop == 13) && big == 1) t.cfg.maxleaves = 400 + (uint32_t)r.below(400);
    bool medium = big == 2 && r.chance(1, 4); // enough leaves for blocks with hundreds of deletions that are no neighbours
    if (medium) t.cfg.maxleaves = 600 + (uint32_t)r.below(r.chance(1, 4) ? 8000 : 1500);
    t.cfg.maxadd = 1 + (uint32_t)r.below(std::min<uint32_t>(t.cfg.maxleaves, r.chance(1, 3) ? 40 : 9));
    if (t.cfg.maxleaves > 90) t.cfg.maxadd = t.cfg.maxleaves / 2;
    t.cfg.delstyle = r.chance(1, 2) ? 100 : (uint32_t)r.below(10);
    t.cfg.collide = r.chance(1, 4) ? 1 + (uint32_t)r.below(5) : 0;
    if (medium) t.cfg.collide = 0; // (the maps by hash degrade to lists)
    t.cfg.readd = r.chance(1, 4) ? 1 + (uint32_t)r.below(6) : 0;
    t.cfg.policy = (uint32_t)r.below(64);
    t.cfg.heal = r.chance(1, 3) ? 2 : 1;
    // a few runs with more leaves than 16 bits can count
    static const uint32_t huge_den[31] = {0, 0, 600, 1000, 0, 0, 1500, 1000, 0, 200, 400, 800, 1200, 1200, 1200, 400, 0, 1000, 1000, 0, 600, 0, 120, 1000, 1200, 1500};
    if (huge_den[prop] && r.chance(1, huge_den[prop])) {
        t.cfg.nb = t.cfg.nc = 1;
        t.cfg.files = disk || r.chance(1, 3) ? 1 : 0;
        static const uint32_t bases[] = {65536, 131072, 196608, 196608}; // one, two and three subtrees of 2^16 leaves
        uint32_t base = bases[r.below(4)];
        t.cfg.maxleaves = base + (uint32_t)r.below(r.chance(1, 2) ? 1 : 3000); // exactly: any deletion moves whole subtrees
        t.cfg.maxadd = 1 + (uint32_t)r.below(40);
        t.cfg.delstyle = 100;
        t.cfg.collide = 0; // (the position map degrades to a list)
        t.cfg.policy = 0;
        t.cfg.heal = 1;
        t.steps.push_back(Step{MINE, 6, (uint32_t)r.below(1000), (uint32_t)r.next()});
        if (r.chance(1, 2)) t.steps.push_back(Step{BRUN, 0, 0, 0});
        t.steps.push_back(Step{MINE, r.chance(1, 2) ? 6u : 0u, base - 136 + (uint32_t)r.below(6000), (uint32_t)r.next()});
        t.steps.push_back(Step{BRUN, 0, 0, 0});
        if (r.chance(1, 2)) t.steps.push_back(Step{SYNC, 0, 0, 0});
        if (r.chance(1, 2)) { // a leaf or two
            t.steps.push_back(Step{MINE, r.chance(1, 2) ? 0u : 4u, r.chance(1, 2) ? 0u : (uint32_t)r.below(t.cfg.maxadd + 1), (uint32_t)r.next()});
            t.steps.push_back(Step{BRUN, 0, 0, 0});
        }
        static const Kind ks[] = {MINE, BSTEP, BPROVE, BREOPEN, BCOMMIT, SYNC, BVERIFY, BBAD, WIRE, CQUERY};
        for (uint64_t k = r.below(6); k; k--) {
            Kind q = ks[r.below(10)];
            t.steps.push_back(Step{q, (uint32_t)r.below(10), (uint32_t)r.below(256), (uint32_t)r.next()});
            if (q == MINE) t.steps.back().b %= t.cfg.maxadd + 1;
        }
        if (r.chance(1, 2)) { // a block with very many deletions: half of the leaves, a range, all of them, a subtree
            static const uint32_t many[] = {1, 2, 3, 7, 8};
            t.steps.push_back(Step{MINE, many[r.below(5)], (uint32_t)r.below(t.cfg.maxadd + 1), (uint32_t)r.next()});
            t.steps.push_back(Step{BRUN, 0, 0, 0});
            if (r.chance(1, 2)) t.steps.push_back(Step{SYNC, 0, 0, 0});
        }
        if (r.chance(2, 3)) {
            t.steps.push_back(Step{FORK, 3, 0, (uint32_t)r.next()});
            t.steps.push_back(Step{BRUN, 0, (uint32_t)r.below(2), 0});
        }
        if (prop >= 11 && prop <= 17)
            for (auto& x : profile(prop))
                if (x.w >= 7 && x.k >= BPROVE) t.steps.push_back(Step{x.k, (uint32_t)r.below(8), (uint32_t)r.below(256), (uint32_t)r.next()});
        return t;
    }
    auto w = profile(prop);
    // swarm: each run switches off a random subset of what may happen
    for (size_t i = 4; i < w.size(); i++)
        if (w[i].w < 7 && r.chance(1, 4)) w[i].w = 0;
    // some runs are about forests far larger than any that can be held in full
    static const uint32_t giant_den[31] = {0, 20, 12, 12, 8, 8, 12, 16, 8, 0, 0, 0, 0, 0, 0, 0, 40, 0, 20, 20, 0, 0, 1, 20, 10, 40};
    bool giant = giant_den[prop] && r.chance(1, giant_den[prop]);
    if (giant) w = {{GIANT, 40}, {MINE, 1}, {BSTEP, 1}, {SYNC, 1}};
    uint32_t msgfault = r.chance(1, 3) ? 0 : (uint32_t)r.below(10);
    uint64_t total = 0;
    for (auto& x : w) total += x.w;
    uint64_t nsteps = r.chance(1, 3) ? 6 + r.below(14) : 15 + r.below(thorough ? 140 : 70);
    if (t.cfg.maxleaves > 90) nsteps = std::min<uint64_t>(nsteps, medium ? 14 : 30);
    else if (!giant && prop != 26 && hash2(seed, 0x10A6) % 80 == 0) nsteps = 500 + r.below(1500); // a long life
    auto mine_step = [&]() {
        uint32_t style = t.cfg.delstyle == 100 ? (uint32_t)r.below(10) : t.cfg.delstyle;
        if (r.chance(1, 3)) style = r.chance(1, 2) ? 6 : 0;
        if (style == 3 && r.chance(2, 3)) style = 0;
        return Step{MINE, style, (uint32_t)r.below(t.cfg.maxadd + 1), (uint32_t)r.next()};
    };
    // something to work on
    t.steps.push_back(Step{MINE, 6, 1 + (uint32_t)r.below(t.cfg.maxadd + 2), (uint32_t)r.next()});
    if (t.cfg.maxleaves > 90) t.steps.push_back(Step{MINE, 6, t.cfg.maxleaves - (uint32_t)r.below(20), (uint32_t)r.next()});
    for (uint32_t i = 0; i < t.cfg.nb; i++) t.steps.push_back(Step{BRUN, i, 0, 0});
    for (uint32_t i = 0; i < t.cfg.nc; i++) t.steps.push_back(Step{SYNC, i, 0, 0});
    while (t.steps.size() < nsteps) {
        uint64_t x = r.below(total);
        size_t i = 0;
        while (x >= w[i].w) x -= w[i++].w;
        Kind k = w[i].k;
        if (k == MINE) {
            t.steps.push_back(mine_step());
            if (r.chance(1, 3)) t.steps.push_back(Step{BSTEP, (uint32_t)r.below(4), (uint32_t)r.below(2), 0});
            continue;
        }
        Step s{k, (uint32_t)r.below(8), (uint32_t)r.next() & 0xff, (uint32_t)r.next()};
        if (k == DELIVER) {
            s.a = (uint32_t)r.below(24);
            s.b = r.below(10) < msgfault ? 1 + (uint32_t)r.below(14) : 0;
        }
        if (k == SYNC) {
            s.b = r.below(10) < msgfault ? 1 + (uint32_t)r.below(10) : 0;
            if (r.chance(1, 6)) s.b |= 16;
        }
        t.steps.push_back(s);
    }
    return t;
}

static const struct {
    const char* n;
    uint32_t Cfg::*m;
} cfgf[] = {{"nb", &Cfg::nb}, {"nc", &Cfg::nc}, {"files", &Cfg::files}, {"maxleaves", &Cfg::maxleaves}, {"maxadd", &Cfg::maxadd}, {"delstyle", &Cfg::delstyle}, {"collide", &Cfg::collide}, {"readd", &Cfg::readd}, {"policy", &Cfg::policy}, {"heal", &Cfg::heal}};

std::string to_text(const Trace& t)
{
    std::ostringstream o;
    o << "utreexo-sim 1\nprop " << t.prop << "\nseed " << t.seed << "\n";
    for (auto& f : cfgf) o << "cfg " << f.n << " " << t.cfg.*(f.m) << "\n";
    for (auto& s : t.steps) o << "step " << kind_name[s.kind] << " " << s.a << " " << s.b << " " << s.c << "\n";
    return o.str();
}
bool from_text(const std::string& text, Trace& t)
{
    std::istringstream in(text);
    std::string line;
    t = Trace();
    bool head = false;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "utreexo-sim") head = true;
        else if (k == "prop") l >> t.prop;
        else if (k == "seed") l >> t.seed;
        else if (k == "cfg") {
            std::string n;
            uint32_t v;
            l >> n >> v;
            for (auto& f : cfgf)
                if (n == f.n) t.cfg.*(f.m) = v;
        } else if (k == "step") {
            std::string n;
            Step s{-1, 0, 0, 0};
            l >> n >> s.a >> s.b >> s.c;
            for (int i = 0; i < NKINDS; i++)
                if (n == kind_name[i]) s.kind = i;
            if (s.kind < 0) return false;
            t.steps.push_back(s);
        }
    }
    return head;
}
