#include "world.h"
#include "include/batchproof.h"
#include "include/pollard.h"
#include "include/ram_forest.h"
#include "model.h"
#include "par.h"
#include "script.h"
#include "seam.h"
#include <cstdarg>
#include <functional>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using ref::H;
using ref::State;
using utreexo::BatchProof;
using utreexo::Leaf;
using utreexo::Pollard;
using utreexo::RamForest;
using utreexo::UndoBatch;
using Bytes = std::vector<uint8_t>;
using StateP = std::shared_ptr<const State>;

Stats stats;
const char* const kind_name[NKINDS] = {
    "MINE", "FORK", "BSTEP", "BRUN", "BPROVE", "BVERIFY", "BBAD", "BCOMMIT", "BREOPEN", "BCRASH", "BNEWCRASH", "BDISKERR", "BREADERR", "BDAMAGE",
    "BALLOC", "BQALLOC", "SEND", "DELIVER", "SYNC", "CQUERY", "CATTACK", "CPROVE", "CTRIM", "CPRUNE", "CREBUILD", "CLOCAL", "CBAD", "CALLOC", "WIRE", "GIANT", "BCOMPARE", "REUSE", "PAR", "FLOOD"};

static constexpr uint32_t P(int i) { return 1u << i; }
static constexpr uint32_t ALL = 0x7fffffff & ~1u;
static constexpr uint32_t FOREIGN_ONLY = 1u; // bit 0 is no property

struct Fail {
    uint32_t mask, taint;
    std::string cls, msg;
};

template <class F>
static auto lib(F&& f)
{
    seam::LibCall scope;
    return f();
}

static std::string hex(const H& h, int n = 4)
{
    std::string s;
    char b[3];
    for (int i = 0; i < n; i++) {
        snprintf(b, 3, "%02x", h[i]);
        s += b;
    }
    return s;
}

// ------------------------------------------------------------------ world
struct Blk {
    int parent = -1, height = 0;
    std::vector<H> adds, dels;
    std::vector<uint64_t> delpos;
    StateP st;
    bool have_proof = false, have_undo = false;
    Bytes proof, undo;
};

struct Bridge {
    std::unique_ptr<RamForest> f;
    bool file = false;
    std::string path;
    int tip = 0;
    int acked = 0;              // block whose state the file is known to hold
    std::vector<int> maybe;     // states whose saving began after that without being confirmed
    std::vector<int> history;   // every state ever confirmed
    uint32_t taint = 0;
    std::map<int, UndoBatch> undo_obj; // undo data still held in memory by the process
};

struct Client {
    std::unique_ptr<Pollard> p;
    int tip = 0;
    std::set<H> remembered;
    int policy = 0;
    uint32_t taint = 0;
    BatchProof rx;   // one receive buffer object, reused for every message
    UndoBatch rxu;
    std::vector<uint64_t> last_targets; // last attacked positions, for repeated attempts
    std::vector<H> ghosts; // hashes of rejected proofs
};

struct Msg {
    int to, blk;
    Bytes bytes;
    std::vector<H> hashes;
};

struct Req {
    std::vector<uint64_t> targets;
    std::vector<H> proof, hashes;
};

struct World {
    const Trace& t;
    uint32_t cur;
    std::string dir;
    FILE* log;
    uint64_t loghash;
    bool nontriv = false;
    int fileno_ = 0;
    bool in_giant = false;

    std::vector<Blk> blks;
    int best = 0;
    std::vector<Bridge> B;
    std::vector<Client> C;
    std::vector<Msg> net;
    uint64_t leafctr = 0;
    std::vector<H> graveyard;

    World(const Trace& t_, const std::string& d, FILE* l) : t(t_), cur(P(t_.prop)), dir(d), log(l), loghash(hash2(0x5eed, t_.prop)) {}

    // -------- bookkeeping
    void say(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[600];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
        for (int i = 0; i < n; i++) loghash = (loghash ^ (uint8_t)buf[i]) * 0x100000001b3ULL;
        loghash ^= loghash >> 31;
        if (log) fprintf(log, "    %s\n", buf);
    }
    void expect(uint32_t mask, uint32_t taint, bool ok, const char* cls, const std::string& msg = "")
    {
        if (in_giant || t.cfg.maxleaves >= 65536) mask |= P(22); // whatever fails, fails in a forest of unusual size
        for (int i = 1; i <= 30; i++)
            if (mask & P(i)) stats.checks[i]++;
        if (ok) return;
        // A wrong answer that belongs to another property does not stop the run where the system can carry on with it:
        // what it leads to may well be this property's business.
        if (!(mask & cur) && !(taint & cur) && softfails < 200 && soft(cls)) {
            if (!softfails++) {
                softcls = cls;
                softmsg = msg;
            }
            if (log) fprintf(log, "  * (another property) %s: %s\n", cls, msg.c_str());
            return;
        }
        throw Fail{mask, taint, cls, msg};
    }
    int softfails = 0;
    std::string softcls, softmsg;
    static bool soft(const char* cls)
    {
        static const std::set<std::string> s = {"decode-memory", "decode-differs", "reencode-differs", "bridge-proof", "undo-data", "own-proof-rejected",
                                                "dead-hash-accepted", "wrong-proof-accepted", "too-many-nodes", "remembered-count", "remembered-proof-wrong",
                                                "absent-provable", "rejected-hash-provable", "duplicate-provable", "wrong-proof-given", "position-map", "rejected-proof-left-traces",
                                                "alloc-failure-left-traces", "forest-equality", "position-map-comparison", "message-equality", "message-sanity", "used-buffer", "used-object", "emptied-object", "asked-twice", "printed-differs", "verify-memory"};
        return s.count(cls) != 0;
    }
    void need(uint32_t mask, bool ok, const char* cls, const std::string& msg = "") { expect(mask, 0u, ok, cls, msg); }
    void probe(const char* name) { stats.probes[name]++; }
    void interesting() { nontriv = true; }
    void reached(uint64_t h)
    {
        if (stats.states.size() < 3000000) stats.states.insert(h);
    }

    const State& st(int b) const { return *blks[b].st; }
    H new_leaf() { return leaf_hash(++leafctr, t.cfg.collide); }
    H junk(Rng& r)
    {
        H h;
        for (auto& x : h) x = (uint8_t)r.next();
        return h;
    }

    // Counts basic blocks of the library (in the build that announces them): time, without a clock.
    // Every item of a message may be hashed and looked up once per row of the forest, with room to spare.
    struct Work {
        World& w;
        uint32_t taint;
        uint64_t items, leaves;
        const char* what;
        uint64_t from = par::work();
        void done() const
        {
            uint64_t n = par::work() - from, rows = 0;
            while (rows < 64 && leaves >> rows) rows++;
            uint64_t limit = 400000 + (5000 + 700 * rows) * items;
            w.expect(P(24), taint, n <= limit, "endless-work", std::string(what) + " of " + std::to_string(items) + " items takes work out of proportion");
        }
    };
    // Verification of a message may take work and memory in proportion to the message, whatever the size of the forest.
    bool metered(utreexo::Accumulator& a, uint32_t taint, const BatchProof& bp, const std::vector<H>& hashes)
    {
        size_t items = bp.GetTargets().size() + bp.GetHashes().size() + hashes.size();
        seam::set_alloc_cap(0, 65536 + 65536 * items);
        Work work{*this, taint, items, a.NumLeaves(), "verifying a proof"};
        bool ok = false, threw = false;
        try {
            ok = lib([&] { return a.Verify(bp, hashes); });
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        bool cap = seam::alloc_cap_hit();
        seam::set_alloc_cap(0, 0);
        expect(P(24), taint, !cap && !threw, "verify-memory", "verifying a proof of " + std::to_string(bp.GetTargets().size()) + " targets and " + std::to_string(bp.GetHashes().size()) + " hashes asks for memory out of proportion");
        work.done();
        return ok;
    }

    // The same for a request that is going to be refused.
    template <class F>
    bool metered_request(uint32_t taint, size_t items, F f)
    {
        seam::set_alloc_cap(0, 65536 + 65536 * items);
        Work work{*this, taint, items, 0, "a request"};
        bool ok = false, threw = false;
        try {
            ok = lib(f);
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        bool cap = seam::alloc_cap_hit();
        seam::set_alloc_cap(0, 0);
        expect(P(24) | P(18), taint, !cap && !threw, "request-memory", "a request of " + std::to_string(items) + " items asks for memory out of proportion");
        work.done();
        return ok;
    }

    // -------- chain
    bool is_ancestor(int a, int b) const
    {
        while (b >= 0 && blks[b].height > blks[a].height) b = blks[b].parent;
        return a == b;
    }
    int next_towards(int from, int to) const
    { // child of `from` on the way to `to`; from must be a proper ancestor
        while (blks[to].parent != from) to = blks[to].parent;
        return to;
    }
    int mine(int parent, uint32_t style, uint32_t nadd, Rng& r)
    {
        const State& s = st(parent);
        uint64_t n = s.n();
        std::set<uint64_t> d;
        switch (style % 10) {
        case 0:
            for (uint64_t k = 1 + r.below(3); k && n; k--) d.insert(r.below(n));
            break;
        case 1:
            for (uint64_t i = 0; i < n; i++)
                if (r.chance(1, 2)) d.insert(i);
            break;
        case 2:
            if (n) {
                uint64_t a = r.below(n), b = a + 1 + r.below(n - a);
                for (uint64_t i = a; i < b; i++) d.insert(i);
            }
            break;
        case 3:
            for (uint64_t i = 0; i < n; i++) d.insert(i);
            break;
        case 4:
            for (uint64_t k = 1 + r.below(2); k && n >= k; k--) d.insert(n - k);
            break;
        case 5: // something clients remember
            for (auto& c : C)
                for (auto& h : c.remembered)
                    if (s.pos.count(h) && r.chance(1, 2)) d.insert(s.pos.at(h));
            break;
        case 6: break;
        case 7:
            if (n) {
                unsigned row = (unsigned)r.below(s.rows.size());
                uint64_t i = r.below(n >> row);
                for (uint64_t j = i << row; j < ((i + 1) << row); j++) d.insert(j);
            }
            break;
        case 8: {
            uint64_t o = r.below(2);
            for (uint64_t i = o; i < n; i += 2) d.insert(i);
            break;
        }
        case 9: // siblings of what clients remember
            for (auto& c : C)
                for (auto& h : c.remembered)
                    if (s.pos.count(h) && r.chance(1, 2) && (s.pos.at(h) ^ 1) < n) d.insert(s.pos.at(h) ^ 1);
            break;
        }
        Blk b;
        b.parent = parent;
        b.height = blks[parent].height + 1;
        b.delpos.assign(d.begin(), d.end());
        for (uint64_t p : b.delpos) b.dels.push_back(s.leaves()[p]);
        std::vector<H> lv = ref::remove(s.leaves(), b.delpos);
        uint64_t room = t.cfg.maxleaves > lv.size() ? t.cfg.maxleaves - lv.size() : 0;
        uint64_t k = std::min<uint64_t>(nadd, room);
        std::set<H> live(lv.begin(), lv.end());
        for (uint64_t i = 0; i < k; i++) {
            H h;
            if (t.cfg.readd && !graveyard.empty() && r.chance(t.cfg.readd, 16)) {
                h = graveyard[r.below(graveyard.size())];
                if (live.count(h)) h = new_leaf();
                else probe("leaf hash re-added");
            } else
                h = new_leaf();
            live.insert(h);
            b.adds.push_back(h);
            lv.push_back(h);
        }
        for (auto& h : b.dels) graveyard.push_back(h);
        if (b.parent != best)
            for (auto& h : b.adds) graveyard.push_back(h);
        b.st = std::make_shared<State>(std::move(lv));
        blks.push_back(std::move(b));
        stats.sim_blocks++;
        int id = (int)blks.size() - 1;
        say("block %d on %d: -%zu +%zu -> %llu leaves", id, parent, blks[id].dels.size(), blks[id].adds.size(), (unsigned long long)st(id).n());
        return id;
    }

    // -------- comparing a node with the model
    std::string diff(const utreexo::Accumulator& a, const State& s)
    {
        std::vector<H> roots;
        uint64_t n = lib([&] { a.Roots(roots); return a.NumLeaves(); });
        if (n != s.n()) return "leaf count " + std::to_string(n) + " instead of " + std::to_string(s.n());
        if (roots != s.roots) return "roots differ at " + std::to_string(n) + " leaves";
        return "";
    }
    std::string diff(const RamForest& f, const State& s)
    {
        std::string d = diff(static_cast<const utreexo::Accumulator&>(f), s);
        if (!d.empty()) return d;
        for (uint64_t i = 0; i < s.n(); i++)
            if (lib([&] { return f.GetLeaf(i); }) != s.leaves()[i]) return "leaf at position " + std::to_string(i) + " differs";
        return "";
    }
    // Does some honest node with this history report something else?
    bool replicas_disagree(const utreexo::Accumulator& a, int tip)
    {
        auto view = [&](const utreexo::Accumulator& x) {
            std::vector<H> roots;
            lib([&] { x.Roots(roots); return 0; });
            return std::make_pair(std::vector<H>(roots), x.NumLeaves());
        };
        auto me = view(a);
        for (auto& b : B)
            if (b.f && b.f.get() != &a && b.tip == tip && view(*b.f) != me) return true;
        for (auto& c : C)
            if (c.p && c.p.get() != &a && c.tip == tip && view(*c.p) != me) return true;
        // a fresh full node fed the same blocks
        std::vector<int> path;
        for (int x = tip; x > 0; x = blks[x].parent) path.push_back(x);
        auto f = lib([&] { return std::make_unique<RamForest>(uint64_t(0)); });
        for (auto it = path.rbegin(); it != path.rend(); ++it) {
            UndoBatch u;
            std::vector<Leaf> add = leaves_of(*it, -1);
            if (!lib([&] { return f->Modify(u, add, blks[*it].delpos); })) return true;
        }
        return view(*f) != me;
    }
    void same(const utreexo::Accumulator& a, int tip, uint32_t mask, uint32_t taint, const char* cls)
    {
        std::string d = diff(a, st(tip));
        if (d.empty()) {
            expect(mask | P(1), taint, true, cls);
            return;
        }
        if (replicas_disagree(a, tip)) mask |= P(1);
        expect(mask, taint, false, cls, d + " (block " + std::to_string(tip) + ")");
    }
    // what the model says a proof for these live hashes is
    std::string proof_diff(const BatchProof& p, const std::vector<H>& hashes, const State& s)
    {
        std::vector<uint64_t> pos;
        for (auto& h : hashes) {
            auto it = s.pos.find(h);
            if (it == s.pos.end()) return "proof for a hash that is not in the set";
            pos.push_back(it->second);
        }
        if (p.GetTargets() != pos) return "proof names wrong positions";
        std::sort(pos.begin(), pos.end());
        if (p.GetSortedTargets() != pos) return "sorted positions of the proof are wrong";
        if (p.GetHashes() != s.proof(pos)) return "proof hashes are wrong for the positions claimed";
        return "";
    }
    std::vector<H> pick_live(const State& s, Rng& r, uint32_t style)
    {
        std::set<uint64_t> d;
        uint64_t n = s.n();
        if (!n) return {};
        switch (style % 5) {
        case 0: d.insert(r.below(n)); break;
        case 1:
            for (uint64_t k = 1 + r.below(4); k; k--) d.insert(r.below(n));
            break;
        case 2:
            for (uint64_t i = 0; i < n; i++)
                if (r.chance(1, 2)) d.insert(i);
            break;
        case 3: {
            uint64_t a = r.below(n), b = a + 1 + r.below(std::min<uint64_t>(n - a, 8));
            for (uint64_t i = a; i < b; i++) d.insert(i);
            break;
        }
        case 4:
            for (uint64_t i = 0; i < n; i++)
                if (!r.chance(1, 6)) d.insert(i);
            break;
        }
        std::vector<H> out;
        for (uint64_t p : d) out.push_back(s.leaves()[p]);
        return out;
    }
    H pick_absent(const State& s, Rng& r)
    {
        H h = maybe_absent(s, r);
        while (s.pos.count(h)) h = junk(r);
        return h;
    }
    H maybe_absent(const State& s, Rng& r)
    {
        for (int k = 0; k < 4 && !graveyard.empty(); k++) {
            H h = graveyard[r.below(graveyard.size())];
            if (!s.pos.count(h)) return h;
        }
        if (r.chance(1, 2) && s.rows.size() > 1) {
            auto& row = s.rows[1 + r.below(s.rows.size() - 1)];
            if (!row.empty()) return row[r.below(row.size())];
        }
        if (r.chance(1, 4)) {
            H z;
            z.fill(0);
            return z;
        }
        if (t.cfg.collide && s.n()) {
            H h = s.leaves()[r.below(s.n())];
            h[t.cfg.collide > 2 ? 16 : 31] ^= 1;
            return h;
        }
        return junk(r);
    }
    template <class T>
    void shuffle(std::vector<T>& v, Rng& r)
    {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    }

    // -------- bridges
    void check_forest(Bridge& b, uint32_t mask, const char* cls)
    {
        same(*b.f, b.tip, mask, b.taint, cls);
        std::string d = diff(*b.f, st(b.tip));
        expect(mask, b.taint, d.empty(), cls, d);
        reached(hash2(hash2(1, st(b.tip).n()), hash2(b.taint, blks[b.tip].dels.size())));
    }
    void prove_check(Bridge& b, const std::vector<H>& want, uint32_t mask, const char* cls)
    {
        BatchProof p;
        bool ok = lib([&] { return b.f->Prove(p, want); });
        expect(mask, b.taint, ok, cls, "full node cannot prove live leaves");
        std::string d = proof_diff(p, want, st(b.tip));
        expect(mask | P(7), b.taint, d.empty(), cls, d);
        bool v = lib([&] { return b.f->Verify(p, want); });
        expect(P(20), b.taint, v, "own-proof-rejected", "full node rejects the proof it produced");
    }
    std::vector<Leaf> leaves_of(int blk, int policy)
    {
        std::vector<Leaf> v;
        for (auto& h : blks[blk].adds) {
            bool rem = policy == 1 || (policy == 2 && (h[31] & 1)) || (policy == 3 && (h[31] & 7) == 0);
            v.emplace_back(h, rem);
        }
        return v;
    }
    bool bstep(Bridge& b, uint32_t mode)
    {
        if (b.tip == best) return false;
        if (is_ancestor(b.tip, best)) {
            int nx = next_towards(b.tip, best);
            Blk& k = blks[nx];
            BatchProof p;
            bool ok = lib([&] { return b.f->Prove(p, k.dels); });
            expect(P(2) | P(3), b.taint, ok, "bridge-cannot-prove", "full node cannot prove the leaves block " + std::to_string(nx) + " spends");
            std::string d = proof_diff(p, k.dels, st(b.tip));
            expect(P(2) | P(7), b.taint, d.empty(), "bridge-proof", d);
            Bytes bytes;
            lib([&] { p.Serialize(bytes); return 0; });
            if (k.have_proof) expect(P(2), b.taint, k.proof == bytes, "bridge-proof", "two full nodes encode different proofs for one block");
            k.proof = Bytes(bytes.begin(), bytes.end());
            k.have_proof = true;
            if (mode & 8) { // a full node may check a block's proof like any other node
                expect(P(20) | P(3), b.taint, metered(*b.f, b.taint, p, k.dels), "own-proof-rejected", "full node rejects the proof it produced");
            }
            UndoBatch u;
            auto lv = leaves_of(nx, -1);
            if ((mode & 4) && k.have_undo) { // without asking for undo data
                bool only_add = (mode & 16) && k.delpos.empty();
                if (only_add) probe("block applied through the full node's own Add");
                ok = lib([&] { return only_add ? b.f->Add(lv) : static_cast<utreexo::Accumulator&>(*b.f).Modify(lv, k.delpos); });
                expect(P(2) | P(3), b.taint, ok, "bridge-modify-refused", "full node refuses a valid block");
                b.tip = nx;
                say("bridge applied %d without undo data", nx);
                probe("block applied without undo data");
                check_forest(b, P(2), "bridge-state-after-block");
                return true;
            }
            ok = lib([&] { return b.f->Modify(u, lv, k.delpos); });
            expect(P(2) | P(3), b.taint, ok, "bridge-modify-refused", "full node refuses a valid block");
            b.tip = nx;
            Bytes ub;
            lib([&] { u.Serialize(ub); return 0; });
            if (k.have_undo) expect(P(9), b.taint, k.undo == ub, "undo-data", "two full nodes write different undo data for one block");
            k.undo = Bytes(ub.begin(), ub.end());
            k.have_undo = true;
            lib([&] { b.undo_obj[nx] = u; return 0; });
            say("bridge applied %d", nx);
            check_forest(b, P(2), "bridge-state-after-block");
        } else {
            int was = b.tip;
            Blk& k = blks[was];
            int par = k.parent;
            auto it = b.undo_obj.find(was);
            bool ok;
            if (it != b.undo_obj.end() && (mode & 1)) {
                ok = lib([&] { return b.f->Undo(it->second); });
                probe("undo from the object in memory");
            } else {
                UndoBatch u;
                ok = lib([&] { return u.Unserialize(k.undo); });
                need(P(9) | P(15), ok, "undo-bytes-rejected", "stored undo data does not decode");
                ok = lib([&] { return b.f->Undo(u); });
                probe(b.undo_obj.count(was) ? "undo from stored bytes" : "undo from stored bytes after a restart");
            }
            expect(P(9), b.taint, ok, "undo-refused", "undo of block " + std::to_string(was) + " refused");
            b.tip = par;
            b.taint |= P(9);
            lib([&] { b.undo_obj.erase(was); return 0; });
            say("bridge undid %d", was);
            check_forest(b, P(9) | P(2), "bridge-state-after-undo");
            Rng r(hash2(was, mode));
            auto want = pick_live(st(b.tip), r, 2);
            if (!want.empty()) prove_check(b, want, P(9) | P(2), "proof-after-undo");
            for (auto& h : k.adds)
                if (!st(par).pos.count(h)) {
                    BatchProof p;
                    need(P(7) | P(9), !lib([&] { return b.f->Prove(p, {h}); }), "undone-leaf-provable", "leaf of an undone block can be proven");
                    break;
                }
            interesting();
        }
        return true;
    }
    enum Match { M_REFUSED = -2, M_NONE = -1 };
    int match(const RamForest& f, const std::vector<int>& cands)
    {
        for (int c : cands)
            if (diff(f, st(c)).empty()) return c;
        return M_NONE;
    }
    std::unique_ptr<RamForest> open(const std::string& path, std::string* err)
    {
        try {
            // A sane forest needs a small multiple of the file's size; a nonsense header must not take gigabytes of the sandbox.
            struct Cap {
                Cap() { seam::set_alloc_cap(size_t(1) << 26, size_t(1) << 28); }
                ~Cap() { seam::set_alloc_cap(0, 0); }
            } cap;
            return lib([&] { return std::make_unique<RamForest>(path); });
        } catch (const std::exception& e) {
            if (err) *err = e.what();
            return nullptr;
        }
    }
    static bool slurp(const std::string& p, Bytes& out)
    {
        out.clear();
        FILE* f = fopen(p.c_str(), "rb");
        if (!f) return false;
        uint8_t buf[65536];
        size_t n;
        int fd = fileno(f);
        ssize_t k;
        while ((k = ::read(fd, buf, sizeof buf)) > 0) {
            n = (size_t)k;
            out.insert(out.end(), buf, buf + n);
        }
        fclose(f);
        return true;
    }
    // How forest files are called: alone or side by side with others whose names differ only in the extension, in
    // the directory, or in what the library might append. (Bits 8.. of `files`.)
    std::string place(const std::string& base) const
    {
        switch ((t.cfg.files >> 8) & 15) {
        case 1: return dir + "/" + base + ".dat";
        case 2: return dir + "/forest." + base;
        case 3: {
            const std::string d = dir + "/forest v1.2 " + base;
            ::mkdir(d.c_str(), 0755);
            return d + "/forest";
        }
        case 4: return dir + "/" + base + ".tmp";
        case 5: return dir + "/" + base + " (of the node with the rather long name) 0123456789abcdef0123456789abcdef.utreexo.dat";
        default: return dir + "/" + base;
        }
    }
    static void spit(const std::string& p, const Bytes& b)
    {
        int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        size_t off = 0;
        while (off < b.size()) {
            ssize_t k = ::write(fd, b.data() + off, b.size() - off);
            if (k <= 0) break;
            off += (size_t)k;
        }
        ::close(fd);
    }
    // Which state would a node starting now find in the file? (looks at a copy)
    int peek(Bridge& b, const std::vector<int>& cands)
    {
        Bytes data;
        if (!slurp(b.path, data)) return M_REFUSED;
        std::string copy = place("peek");
        spit(copy, data);
        int m = M_REFUSED;
        {
            auto f = open(copy, nullptr);
            if (f) m = match(*f, cands);
            lib([&] { f.reset(); return 0; });
        }
        ::unlink(copy.c_str());
        ::unlink((copy + ".tmp").c_str());
        return m;
    }
    void ack(Bridge& b, int state)
    {
        b.acked = state;
        b.maybe.clear();
        b.history.push_back(state);
    }
    std::vector<int> cands(const Bridge& b)
    {
        std::vector<int> v = b.maybe;
        std::reverse(v.begin(), v.end());
        v.push_back(b.acked);
        return v;
    }
    void close_node(Bridge& b)
    {
        lib([&] {
            b.undo_obj.clear();
            b.f.reset();
            return 0;
        });
    }
    // Start a node on the bridge's file; the state found must be one of `ok`.
    void start(Bridge& b, const std::vector<int>& ok, uint32_t mask, uint32_t mask_older, const char* cls)
    {
        std::string err;
        b.f = open(b.path, &err);
        if (!b.f) expect(mask, b.taint, false, cls, "the forest file cannot be opened again: " + err);
        int m = match(*b.f, ok);
        if (m < 0) {
            int o = match(*b.f, b.history);
            std::string d = o >= 0 ? "file holds the older state of block " + std::to_string(o) : "file holds a state the node was never in (" + diff(*b.f, st(ok[0])) + ")";
            expect(o >= 0 ? mask_older : mask, b.taint, false, cls, d);
        }
        expect(mask, b.taint, true, cls);
        b.tip = m;
        ack(b, m);
        say("reopened at block %d", m);
        check_forest(b, mask, cls);
    }
    std::unique_ptr<RamForest> fresh_memory() { return lib([&] { return std::make_unique<RamForest>(uint64_t(0)); }); }

    bool commit(Bridge& b, const char* why)
    {
        (void)why;
        return lib([&] { return b.f->Commit(); });
    }
    void bcommit(Bridge& b)
    {
        seam::disarm();
        if (!b.file) { // nowhere to save to
            expect(P(11), b.taint, !commit(b, "commit"), "unsaved-commit-reported", "a full node that has no file reports that it saved itself");
            check_forest(b, P(11), "state-after-commit");
            return;
        }
        bool ok = commit(b, "commit");
        expect(P(11) | P(13), b.taint, ok, "commit-refused", "saving fails on a working disk");
        ack(b, b.tip);
        check_forest(b, P(10) | P(11), "state-after-commit");
        say("bridge committed %d", b.tip);
        if (cur & (P(11) | P(12) | P(13))) {
            // a crash right now would find:
            // (only what has reached the disk counts)
            int m = peek(b, {b.tip});
            expect(P(11), b.taint, m == b.tip, "commit-not-on-disk", m == M_REFUSED ? "after a reported commit the file cannot be opened" : "after a reported commit the file does not hold the committed state");
        }
    }
    void breopen(Bridge& b, uint32_t c)
    {
        if (!b.file) return;
        if (c & 1) bcommit(b);
        std::vector<H> sample;
        Rng r(c);
        close_node(b);
        int tip = b.tip;
        start(b, {tip}, P(10), P(10), "clean-reopen");
        b.tip = tip;
        b.taint |= P(10);
        auto want = pick_live(st(b.tip), r, c >> 1);
        if (!want.empty()) prove_check(b, want, P(10), "proof-after-reopen");
        // compare with a node that never restarted, through the library's own equality
        for (auto& o : B)
            if (&o != &b && o.f && o.tip == b.tip && !o.file) {
                expect(P(10), b.taint, lib([&] { return *b.f == *o.f; }), "reopen-not-equal", "reopened forest is not equal to one that never restarted");
                probe("reopened forest compared with one that never restarted");
            }
        interesting();
    }
    void bcrash(Bridge& b, uint32_t where, uint32_t c)
    {
        if (!b.file) return;
        uint32_t frac = c & 0xffff;
        long k = (c >> 16) % 7;
        if (frac < 3000) frac = 0;
        seam::disarm();
        uint32_t mask = P(11) | P(12), older = P(11);
        bool fired = false;
        int ev = -1;
        switch (where % 4) {
        case 0:
            seam::freeze();
            close_node(b);
            say("crash while idle at %d", b.tip);
            break;
        case 1:
        case 2: {
            seam::arm_crash(k, frac);
            bool ok = commit(b, "crash");
            fired = seam::fault_fired();
            ev = seam::last_event();
            if (fired) b.maybe.push_back(b.tip), older |= P(12), probe("crash inside commit");
            else {
                expect(P(11) | P(13), b.taint, ok, "commit-refused", "saving fails on a working disk");
                ack(b, b.tip);
                probe("crash right after commit");
            }
            seam::freeze();
            close_node(b);
            say("crash in commit of %d at event %ld %s frac %u: %s", b.tip, k, ev >= 0 ? seam::ev_name[ev] : "-", frac, fired ? "fired" : "after");
            break;
        }
        case 3:
            b.maybe.push_back(b.tip);
            seam::arm_crash(k, frac);
            close_node(b);
            fired = seam::fault_fired();
            ev = seam::last_event();
            older |= P(12);
            if (!fired) ack(b, b.tip);
            else
                probe("crash inside close");
            say("crash in close of %d at event %ld frac %u: %s", b.tip, k, frac, fired ? "fired" : "after");
            break;
        }
        seam::thaw();
        std::vector<int> ok = cands(b);
        reached(hash2(hash2(77, st(b.tip).n()), hash2(k * 65536 + (frac >> 12), where % 4)));
        if (where % 4 == 3 && !fired) start(b, ok, mask | P(10), older | P(10), "reopen-after-crash");
        else
            start(b, ok, mask, older, "reopen-after-crash");
        b.taint |= P(11) | P(12);
        interesting();
    }
    void bnewcrash(uint32_t c)
    {
        std::string p = place("n" + std::to_string(fileno_++));
        uint32_t frac = c & 0xffff;
        long k = (c >> 16) % 5;
        seam::disarm();
        seam::arm_crash(k, frac);
        {
            auto f = open(p, nullptr);
            bool fired = seam::fault_fired();
            if (fired) probe("crash while creating a file");
            seam::freeze();
            lib([&] { f.reset(); return 0; });
            say("crash while creating: event %ld frac %u %s", k, frac, fired ? "fired" : "after");
        }
        seam::thaw();
        std::string err;
        auto f = open(p, &err);
        need(P(12), f != nullptr, "reopen-after-creation-crash", "cannot be opened: " + err);
        std::string d = diff(*f, st(0));
        need(P(12), d.empty(), "reopen-after-creation-crash", d);
        lib([&] { f.reset(); return 0; });
        ::unlink(p.c_str());
        ::unlink((p + ".tmp").c_str());
        interesting();
    }
    void bdiskerr(Bridge& b, uint32_t what, uint32_t c)
    {
        static const char* en[] = {"EIO", "ENOSPC", "short write", "EINTR", "EMFILE"};
        auto e = (seam::DiskErr)(what % seam::D_NKINDS);
        uint32_t where = (what / 8) % 4;
        bool sticky = c & 0x100;
        long k = (c & 0xff) % 8;
        seam::disarm();
        if (where == 2) {
            std::string p = place("e" + std::to_string(fileno_++));
            seam::arm_write_error(e, k, sticky);
            std::string err;
            auto f = open(p, &err);
            bool fired = seam::fault_fired_data();
            seam::disarm();
            say("disk error %s #%ld%s while creating: %s", en[e], k, sticky ? "+" : "", fired ? "fired" : "no");
            if (!fired) need(P(13), f != nullptr, "create-failed", "creating a forest file fails without a disk error: " + err);
            if (f) {
                Bytes made; // a file that could not be written has to be reported, not only repaired later
                std::string seen = place("peek");
                bool there = slurp(p, made);
                if (there) spit(seen, made);
                auto now = there ? open(seen, nullptr) : nullptr;
                need(P(13) | P(11), now && diff(*now, st(0)).empty(), "silent-disk-error", "a forest file was created without complaint but is not there or cannot be opened");
                lib([&] { now.reset(); return 0; });
                ::unlink(seen.c_str());
                ::unlink((seen + ".tmp").c_str());
                UndoBatch u;
                H h = new_leaf();
                State one({h});
                need(P(13), lib([&] { return f->Modify(u, {{h, false}}, {}); }), "modify-after-diskerr");
                bool ok = lib([&] { return f->Commit(); });
                need(P(13), ok, "commit-after-disk-works", "saving fails although the disk works again");
                Bytes data;
                slurp(p, data);
                std::string cp = place("peek");
                spit(cp, data);
                auto g = open(cp, nullptr);
                need(P(13) | P(11), g && diff(*g, one).empty(), "silent-disk-error", "saving reported success but the file does not hold the state");
                lib([&] { g.reset(); f.reset(); return 0; });
                ::unlink(cp.c_str());
            } else {
                auto g = open(p, &err);
                need(P(13), g != nullptr, "create-after-disk-error", "after a failed creation the file cannot be opened: " + err);
                need(P(13), diff(*g, st(0)).empty(), "create-after-disk-error", "garbage after a failed creation");
                lib([&] { g.reset(); return 0; });
            }
            ::unlink(p.c_str());
            ::unlink((p + ".tmp").c_str());
            interesting();
            return;
        }
        if (!b.file) return;
        if (where == 3) {
            b.maybe.push_back(b.tip);
            seam::arm_write_error(e, k, sticky);
            close_node(b);
            bool fired = seam::fault_fired_data();
            seam::disarm();
            say("disk error %s #%ld%s in close of %d: %s", en[e], k, sticky ? "+" : "", b.tip, fired ? "fired" : "no");
            if (!fired) ack(b, b.tip);
            else
                probe("disk error in close");
            start(b, cands(b), P(13), P(13), "reopen-after-disk-error");
            b.taint |= P(13);
            interesting();
            return;
        }
        seam::arm_write_error(e, k, sticky);
        bool ok = commit(b, "diskerr");
        bool fired = seam::fault_fired_data(), any = seam::fault_fired();
        seam::disarm();
        say("disk error %s #%ld%s in commit of %d: %s, returned %d", en[e], k, sticky ? "+" : "", b.tip, any ? "fired" : "no", (int)ok);
        if (!fired) {
            expect(P(13), b.taint, ok, "commit-refused", any ? "a retryable short or interrupted write makes saving fail" : "saving fails on a working disk");
            if (any) probe("retryable write interruption in commit");
        } else
            probe("disk error in commit");
        if (ok) {
            int m = peek(b, {b.tip});
            expect(P(13) | P(11), b.taint, m == b.tip, "silent-disk-error", "saving reported success but the file does not hold the state");
            ack(b, b.tip);
        } else {
            b.maybe.push_back(b.tip);
            int m = peek(b, cands(b));
            expect(P(13), b.taint, m >= 0, "saved-state-lost", m == M_REFUSED ? "after a failed save the file cannot be opened" : "after a failed save the file holds neither the old nor the new state");
        }
        b.taint |= P(13);
        check_forest(b, P(13), "memory-after-disk-error");
        if (c & 0x200) {
            ok = commit(b, "again");
            expect(P(13), b.taint, ok, "commit-after-disk-works", "saving fails although the disk works again");
            ack(b, b.tip);
            int m = peek(b, {b.tip});
            expect(P(13) | P(11), b.taint, m == b.tip, "commit-after-disk-works", "saving reported success but the file does not hold the state");
        }
        interesting();
    }
    void breaderr(Bridge& b, uint32_t what, uint32_t c)
    {
        if (!b.file) return;
        auto e = (seam::DiskErr)(what % seam::D_NKINDS);
        bool sticky = c & 0x100;
        long k = (c & 0xff) % 6;
        seam::disarm();
        close_node(b);
        Bytes before, after;
        slurp(b.path, before);
        seam::arm_read_error(e, k, sticky);
        std::string err;
        auto f = open(b.path, &err);
        bool fired = seam::fault_fired_data(), any = seam::fault_fired();
        seam::disarm();
        say("read error %d #%ld%s opening %d: %s, %s", (int)e, k, sticky ? "+" : "", b.tip, any ? "fired" : "no", f ? "opened" : "refused");
        if (f) {
            std::string d = diff(*f, st(b.tip));
            expect(P(14), b.taint, d.empty(), "fabricated-forest", "opening with a read error gives another forest: " + d);
            lib([&] { f.reset(); return 0; });
        } else {
            expect(P(14) | P(10), b.taint, fired, "open-refused", "a readable file is refused: " + err);
            probe("opening refused on a read error");
            slurp(b.path, after);
            expect(P(14), b.taint, after == before, "file-changed-by-failed-open", "the failed open changed the file");
        }
        start(b, {b.tip}, P(14), P(14), "reopen-after-read-error");
        b.taint |= P(14);
        interesting();
    }
    void bdamage(Bridge& b, uint32_t what, uint32_t c)
    {
        if (!b.file) return;
        seam::disarm();
        close_node(b);
        Bytes good, bad, after;
        slurp(b.path, good);
        const State& s = st(b.tip);
        uint64_t need = 8;
        for (auto& r : s.rows) need += 32 * r.size();
        bad = good;
        if (what % 4 == 3) { // the leaf count says more than the file has
            uint64_t n = s.n() + 1 + (c & 0xff);
            if (c & 0x100) n = (uint64_t(1) << (20 + (c >> 9) % 40)) + (c & 0xff);
            for (int i = 0; i < 8 && i < (int)bad.size(); i++) bad[i] = (uint8_t)(n >> (56 - 8 * i));
            if (need > 0) bad.resize(std::min<size_t>(bad.size(), need));
        } else {
            uint64_t keep = c % need;
            if (what % 4 == 1) keep = need - 1 - (c % 40 < need ? c % 40 : 0);
            if (what % 4 == 2) keep = c % std::min<uint64_t>(need, 9);
            if (keep < bad.size()) bad.resize(keep);
        }
        spit(b.path, bad);
        std::string err;
        auto f = open(b.path, &err);
        say("damaged file (%zu of %llu bytes) for block %d: %s", bad.size(), (unsigned long long)need, b.tip, f ? "opened" : "refused");
        if (f) {
            std::string d = diff(*f, s);
            expect(P(14), b.taint, d.empty(), "fabricated-forest", "opening a damaged file gives another forest: " + d);
            lib([&] { f.reset(); return 0; });
        } else {
            slurp(b.path, after);
            expect(P(14), b.taint, after == bad, "file-changed-by-failed-open", "the failed open changed the file");
            probe("damaged file refused");
        }
        spit(b.path, good);
        start(b, {b.tip}, P(14), P(14), "reopen-after-repair");
        b.taint |= P(14);
        interesting();
    }
    static long fault_index(uint32_t c, long seen_hint = 0)
    {
        (void)seen_hint;
        uint32_t v = c >> 4;
        switch (c & 3) {
        case 0: return v % 4;
        case 1: return v % 16;
        case 2: return v % 64;
        default: return v % 400;
        }
    }
    void balloc(Bridge& b, uint32_t op, uint32_t c)
    {
        bool sticky = c & 8;
        long k = fault_index(c);
        seam::disarm();
        int before = b.tip, after = b.tip;
        bool threw = false, ok = false, fired = false;
        const char* what = "";
        switch (op % 4) {
        case 0:
        case 1: {
            if (b.tip == best) return;
            if (is_ancestor(b.tip, best)) {
                after = next_towards(b.tip, best);
                what = "modify";
                UndoBatch u;
                auto leaves = leaves_of(after, -1);
                bool plain = (c & 0x400000) && blks[after].have_undo, only_add = plain && blks[after].delpos.empty();
                if (only_add) what = "addition";
                try {
                    seam::arm_alloc(k, sticky);
                    ok = lib([&] {
                        if (only_add) return b.f->Add(leaves);
                        if (plain) return static_cast<utreexo::Accumulator&>(*b.f).Modify(leaves, blks[after].delpos);
                        return b.f->Modify(u, leaves, blks[after].delpos);
                    });
                } catch (const std::exception&) {
                    if (!seam::alloc_fired()) throw;
                    threw = true;
                }
                fired = seam::alloc_fired();
                seam::disarm_alloc();
                if (ok && !threw && !plain) {
                    Bytes ub;
                    lib([&] { u.Serialize(ub); return 0; });
                    if (blks[after].have_undo) expect(P(9), b.taint, blks[after].undo == ub, "undo-data", "two full nodes write different undo data for one block");
                    blks[after].undo = Bytes(ub.begin(), ub.end());
                    blks[after].have_undo = true;
                }
            } else {
                after = blks[b.tip].parent;
                what = "undo";
                UndoBatch u;
                lib([&] { return u.Unserialize(blks[b.tip].undo); });
                try {
                    seam::arm_alloc(k, sticky);
                    ok = lib([&] { return b.f->Undo(u); });
                } catch (const std::exception&) {
                    if (!seam::alloc_fired()) throw;
                    threw = true;
                }
            }
            fired = seam::alloc_fired();
            break;
        }
        case 2: {
            if (!b.file) return;
            what = "commit";
            try {
                seam::arm_alloc(k, sticky);
                ok = commit(b, "alloc");
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            fired = seam::alloc_fired();
            seam::disarm_alloc();
            say("allocation %ld%s fails in commit of %d: %s ret %d", k, sticky ? "+" : "", b.tip, fired ? "fired" : "no", (int)ok);
            if (!fired) expect(P(11) | P(13), b.taint, ok, "commit-refused", "saving fails on a working disk");
            if (ok && !threw) {
                ack(b, b.tip);
                expect(P(17) | P(11), b.taint, peek(b, {b.tip}) == b.tip, "commit-not-on-disk", "saving reported success but the file does not hold the state");
            } else {
                b.maybe.push_back(b.tip);
                expect(P(17), b.taint, peek(b, cands(b)) >= 0, "saved-state-lost", "memory exhaustion while saving destroyed the saved state");
            }
            b.taint |= P(17);
            check_forest(b, P(17), "memory-after-alloc-failure");
            interesting();
            return;
        }
        case 3: { // while opening
            if (!b.file) return;
            close_node(b);
            std::unique_ptr<RamForest> f;
            bool other = false;
            try {
                seam::arm_alloc(k, sticky);
                f = lib([&] { return std::make_unique<RamForest>(b.path); });
            } catch (const std::bad_alloc&) {
                threw = true;
            } catch (const std::exception&) {
                other = true;
            }
            fired = seam::alloc_fired();
            seam::disarm_alloc();
            say("allocation %ld%s fails while opening %d: %s", k, sticky ? "+" : "", b.tip, fired ? "fired" : "no");
            if (other) expect(P(10) | P(17), b.taint, fired, "open-refused", "a readable file is refused");
            if (f) {
                std::string d = diff(*f, st(b.tip));
                expect(P(17) | P(14), b.taint, d.empty(), "fabricated-forest", "memory exhaustion while opening gives another forest: " + d);
                lib([&] { f.reset(); return 0; });
            }
            start(b, {b.tip}, P(17), P(17), "reopen-after-alloc-failure");
            b.taint |= P(17);
            interesting();
            return;
        }
        }
        seam::disarm_alloc();
        say("allocation %ld%s fails in %s of %d: %s, %s", k, sticky ? "+" : "", what, before, fired ? "fired" : "no", threw ? "threw" : ok ? "ok" : "refused");
        if (ok && !threw) {
            b.tip = after;
            check_forest(b, P(2) | P(9), "state-after-block");
            return;
        }
        expect(P(2) | P(9), b.taint, fired, "modify-refused", std::string("full node refuses a valid ") + what);
        probe(b.file ? "block interrupted by memory exhaustion (file-backed)" : "block interrupted by memory exhaustion (in memory)");
        if (!b.file) {
            lib([&] { b.undo_obj.clear(); b.f.reset(); return 0; });
            b.f = fresh_memory();
            b.tip = 0;
            return;
        }
        bool asked = c & 0x100000;
        if (asked) {
            bool r = false;
            try {
                r = commit(b, "after alloc failure");
            } catch (const std::exception&) {
            }
            say("asked to save after the failure: %d", (int)r);
            if (r) expect(P(17) | P(11), b.taint, peek(b, {before, after}) >= 0, "commit-not-on-disk", "saving after an interrupted modification reported success but the file holds neither state");
            if (c & 0x200000) { // and the machine dies right there
                seam::freeze();
            }
        }
        close_node(b);
        seam::thaw();
        std::vector<int> okset = cands(b);
        okset.push_back(before);
        okset.push_back(after);
        start(b, okset, P(17), P(17), "reopen-after-alloc-failure");
        b.taint |= P(17);
        interesting();
    }
    void bqalloc(Bridge& b, uint32_t op, uint32_t c)
    {
        long k = fault_index(c);
        bool sticky = c & 8;
        Rng r(c);
        auto want = pick_live(st(b.tip), r, op >> 3);
        bool threw = false, ok = false;
        BatchProof p;
        UndoBatch u;
        bool fired = false;
        switch (op % 4) {
        case 0: {
            if (want.empty()) return;
            try {
                seam::arm_alloc(k, sticky);
                ok = lib([&] { return b.f->Prove(p, want); });
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            fired = seam::alloc_fired();
            seam::disarm_alloc();
            if (ok) {
                std::string d = proof_diff(p, want, st(b.tip));
                need(P(16) | P(7), d.empty(), "proof-under-alloc-failure", d);
            } else
                need(P(16) | P(2), fired, "bridge-cannot-prove", "full node cannot prove live leaves");
            break;
        }
        case 1: {
            if (want.empty()) return;
            lib([&] { return b.f->Prove(p, want); });
            bool bogus = r.chance(1, 2);
            std::vector<H> hs = want;
            if (bogus) hs[r.below(hs.size())] = pick_absent(st(b.tip), r);
            try {
                seam::arm_alloc(k, sticky);
                ok = lib([&] { return b.f->Verify(p, hs); });
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            fired = seam::alloc_fired();
            seam::disarm_alloc();
            if (bogus) need(P(16) | P(20), !ok, "dead-hash-accepted", "full node accepts a hash that is not in the set");
            break;
        }
        default: {
            bool undo = op % 4 == 3;
            const Bytes* src = nullptr;
            for (size_t i = 1; i < blks.size(); i++) {
                const Blk& k2 = blks[(i + c) % blks.size()];
                if (undo ? k2.have_undo : k2.have_proof) src = undo ? &k2.undo : &k2.proof;
            }
            if (!src) return;
            Client& cl = C[c % C.size()];
            try {
                seam::arm_alloc(k, sticky);
                ok = lib([&] { return undo ? cl.rxu.Unserialize(*src) : cl.rx.Unserialize(*src); });
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            fired = seam::alloc_fired();
            seam::disarm_alloc();
            // whatever is in the object now, decoding the message again must give its contents
            ok = lib([&] { return undo ? cl.rxu.Unserialize(*src) : cl.rx.Unserialize(*src); });
            need(P(16) | P(15), ok, "decode-after-alloc-failure", "a genuine message does not decode");
            Bytes back;
            lib([&] { undo ? cl.rxu.Serialize(back) : cl.rx.Serialize(back); return 0; });
            need(P(16) | P(15), back == *src, "decode-after-alloc-failure", "object reused after an allocation failure decodes to something else");
            if (!undo) {
                std::string d = decode_diff(cl.rx, *src);
                need(P(16) | P(15), d.empty(), "decode-after-alloc-failure", d);
            }
            break;
        }
        }
        say("query alloc %u k %ld fired %d threw %d ok %d", op % 4, k, (int)fired, (int)threw, (int)ok);
        if (fired) {
            interesting();
            probe("allocation failure in a full node's query");
        }
        b.taint |= P(16);
        check_forest(b, P(16), "state-after-alloc-failure");
        if (!want.empty()) prove_check(b, want, P(16) | P(2), "proof-after-alloc-failure");
    }
    void bprove(Bridge& b, uint32_t style, uint32_t c)
    {
        Rng r(c);
        const State& s = st(b.tip);
        auto want = pick_live(s, r, style);
        if (!want.empty()) {
            shuffle(want, r);
            prove_check(b, want, P(2), "bridge-proof");
        }
        H bad = pick_absent(s, r);
        auto v = want;
        v.insert(v.begin() + (long)r.below(v.size() + 1), bad);
        BatchProof p;
        bool ok = lib([&] { return b.f->Prove(p, v); });
        expect(P(7), b.taint, !ok, "absent-provable", "full node returns a proof for a set that holds a hash that is not there");
        ok = lib([&] { return b.f->Prove(p, {bad}); });
        expect(P(7), b.taint, !ok, "absent-provable", "full node proves a hash that is not there");
        if (!want.empty() && r.chance(1, 3)) {
            v = want;
            v.push_back(want[r.below(want.size())]);
            ok = lib([&] { return b.f->Prove(p, v); });
            if (ok) expect(P(7), b.taint, false, "duplicate-provable", "proof returned for a list that names a leaf twice");
        }
        check_forest(b, P(2), "state-after-prove");
        interesting();
        say("prove %zu at %d", want.size(), b.tip);
    }
    void bverify(Bridge& b, uint32_t kind, uint32_t c)
    {
        Rng r(c);
        const State& s = st(b.tip);
        auto want = pick_live(s, r, c >> 3);
        if (want.empty()) return;
        Rng r2(c ^ 0x5bd1e995u);
        if (r2.chance(1, 2)) shuffle(want, r2); // targets are in the order of the request
        BatchProof p;
        if (!lib([&] { return b.f->Prove(p, want); })) return; // C02's business
        std::vector<uint64_t> tg = p.GetTargets();
        std::vector<H> ph = p.GetHashes(), hs = want;
        bool genuine = false;
        bool judge = false; // the model says whether it still proves the hashes
        kind %= 23;
        switch (kind) {
        case 0: genuine = true; break;
        case 1: hs[r.below(hs.size())] = pick_absent(s, r); break;
        case 2: hs[r.below(hs.size())] = junk(r); break;
        case 3:
            if (ph.empty()) return;
            ph[r.below(ph.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8));
            break;
        case 4: {
            uint64_t np = r.below(s.n());
            if (std::count(tg.begin(), tg.end(), np)) return;
            tg[r.below(tg.size())] = np;
            break;
        }
        case 5:
            if (ph.empty()) return;
            ph.erase(ph.begin() + (long)r.below(ph.size()));
            break;
        case 6: ph.insert(ph.begin() + (long)r.below(ph.size() + 1), junk(r)); break;
        case 7: hs.pop_back(); break;
        case 8: { // genuine, hashes in the order of the request
            shuffle(hs, r);
            BatchProof q;
            if (!lib([&] { return b.f->Prove(q, hs); })) return;
            expect(P(20), b.taint, lib([&] { return b.f->Verify(q, hs); }), "own-proof-rejected", "full node rejects the proof it produced");
            say("own shuffled proof");
            return;
        }
        default: {
            judge = true;
            size_t k = r.below(tg.size()), k2 = r.below(tg.size());
            switch (kind) {
            case 9: std::swap(hs[k], hs[k2]); break;
            case 10: std::swap(tg[k], tg[k2]); break;
            case 11: // the same leaf twice
                tg.insert(tg.begin() + (long)k2, tg[k]);
                hs.insert(hs.begin() + (long)k2, hs[k]);
                break;
            case 12: { // the genuine proof of these leaves at another height or on another branch
                const State& o = st((int)r.below(blks.size()));
                for (auto& h : hs)
                    if (!o.pos.count(h)) return;
                Req g = genuine_req(o, hs);
                tg = g.targets;
                ph = g.proof;
                hs = g.hashes;
                break;
            }
            case 13: { // proof hashes meant for another set of leaves
                auto other = pick_live(s, r, c >> 7);
                ph = genuine_req(s, other).proof;
                break;
            }
            case 14: // one leaf less, its proof kept
                tg.erase(tg.begin() + (long)k);
                hs.erase(hs.begin() + (long)k);
                break;
            case 15:
                if (ph.empty()) return;
                ph.push_back(ph.back());
                break;
            case 16: ph.clear(); break;
            case 17: { // an inner node instead of its leaves
                if (s.rows.size() < 2) return;
                unsigned row = 1 + (unsigned)r.below(s.rows.size() - 1);
                if (s.rows[row].empty()) return;
                uint64_t i = r.below(s.rows[row].size());
                unsigned nrows = 0;
                while ((uint64_t(1) << nrows) < s.n()) nrows++;
                uint64_t off = 0;
                for (unsigned q = 0; q < row; q++) off += uint64_t(1) << (nrows - q);
                tg[k] = off + i;
                hs[k] = s.rows[row][i];
                break;
            }
            case 18: tg[k] += r.chance(1, 2) ? uint64_t(1) << r.below(64) : s.n(); break;
            case 19: // a live leaf that is not the one at that position
                hs[k] = s.leaves()[r.below(s.n())];
                break;
            case 20: // one of the leaves stands in for another
                hs[k] = hs[k2];
                break;
            case 21: { // every hash belongs to the target at its place, or to the one that is there once they are sorted
                auto so = tg;
                std::sort(so.begin(), so.end());
                for (size_t i = 0; i < hs.size(); i++)
                    if (r.chance(1, 2)) hs[i] = s.leaves()[so[i]];
                break;
            }
            case 22: shuffle(hs, r); break;
            }
            auto so = tg;
            std::sort(so.begin(), so.end());
            bool good = hs.size() == tg.size() && std::adjacent_find(so.begin(), so.end()) == so.end() && (so.empty() || so.back() < s.n());
            bool as_asked = good, as_sorted = good;
            for (size_t i = 0; good && i < hs.size(); i++) {
                as_asked = as_asked && s.leaves()[tg[i]] == hs[i];
                as_sorted = as_sorted && s.leaves()[so[i]] == hs[i];
            }
            good = good && (as_asked || as_sorted) && s.proof(so) == ph;
            if (good && as_asked && !tg.empty()) genuine = true;
            else if (good) return; // order of the hashes is the caller's choice
            break;
        }
        }
        BatchProof q = lib([&] { return BatchProof(tg, ph); });
        bool ok = metered(*b.f, b.taint, q, hs);
        if (judge) probe(genuine ? "altered but true proof for a full node" : "altered proof for a full node");
        say("bridge verify kind %u -> %d", kind, (int)ok);
        if (genuine) expect(P(20), b.taint, ok, "own-proof-rejected", "full node rejects the proof it produced");
        else
            expect(P(20), b.taint, !ok, kind <= 2 ? "dead-hash-accepted" : "wrong-proof-accepted", "full node accepts a proof that does not prove the hashes (forgery kind " + std::to_string(kind) + ")");
        check_forest(b, P(20), "state-after-verify");
        interesting();
    }
    // ---- comparisons
    void compare_forests(RamForest& x, const std::vector<H>& lx, RamForest& y, const std::vector<H>& ly, uint32_t taint)
    {
        bool same = lx == ly;
        bool eq = lib([&] { return x == y; });
        expect(P(23), taint, eq == same, "forest-equality", std::string("two full nodes with ") + (same ? "the same" : "different") + " leaves compare " + (eq ? "equal" : "unequal"));
        bool within = lx.size() <= ly.size() && std::equal(lx.begin(), lx.end(), ly.begin());
        bool sub = lib([&] { return x.ComparePositionMap(y); });
        expect(P(23), taint, sub == within, "position-map-comparison", std::string("position maps compare ") + (sub ? "equal" : "unequal") + " although the leaves' positions are " + (within ? "the same" : "not"));
    }
    void compare_undo(const UndoBatch& ca, const UndoBatch& cb, bool same)
    {
        UndoBatch a = lib([&] { return ca; });
        bool eq = lib([&] { return a == cb; });
        expect(P(23), 0, eq == same, "message-equality", std::string(same ? "equal" : "different") + " undo data compares " + (eq ? "equal" : "unequal"));
    }
    void compare_proof(const BatchProof& ca, const BatchProof& cb, bool same)
    {
        BatchProof a = lib([&] { return ca; });
        bool eq = lib([&] { return a == cb; });
        expect(P(23), 0, eq == same, "message-equality", std::string(same ? "equal" : "different") + " proofs compare " + (eq ? "equal" : "unequal"));
    }
    void bcompare(Bridge& b, uint32_t style, uint32_t c32)
    {
        Rng r(c32);
        const State& s = st(b.tip);
        for (auto& o : B)
            if (&o != &b && o.f) {
                if (o.tip == b.tip) b.taint |= 0;
                compare_forests(*b.f, s.leaves(), *o.f, st(o.tip).leaves(), b.taint | o.taint);
                compare_forests(*o.f, st(o.tip).leaves(), *b.f, s.leaves(), b.taint | o.taint);
                probe(o.tip == b.tip ? "full nodes compared at one block" : "full nodes compared at different blocks");
            }
        // a node that took another way to (almost) the same set
        std::vector<H> v = s.leaves();
        switch (style % 8) {
        case 0: break;
        case 1:
            if (v.size() > 1) std::swap(v[r.below(v.size())], v[r.below(v.size())]);
            break;
        case 2:
            if (!v.empty()) v[r.below(v.size())] = junk(r);
            break;
        case 3:
            if (!v.empty()) v.pop_back();
            break;
        case 4: v.push_back(junk(r)); break;
        case 5: v.clear(); break;
        case 6:
            if (!v.empty()) {
                H& h = v[r.below(v.size())];
                h[r.below(32)] ^= (uint8_t)(1 << r.below(8));
                if (s.pos.count(h)) h = junk(r);
            }
            break;
        case 7:
            if (!v.empty()) v.erase(v.begin() + (long)r.below(v.size()));
            break;
        }
        {
            auto f = lib([&] { return std::make_unique<RamForest>(uint64_t(0)); });
            size_t at = 0;
            while (at < v.size()) {
                size_t k = 1 + r.below(v.size() - at);
                std::vector<Leaf> add;
                for (size_t i = at; i < at + k; i++) add.emplace_back(v[i], false);
                UndoBatch u;
                bool ok = lib([&] { return f->Modify(u, add, {}); });
                expect(P(2), 0, ok, "bridge-modify-refused", "a fresh full node refuses leaves");
                at += k;
            }
            same_leaves(*f, v);
            compare_forests(*b.f, s.leaves(), *f, v, b.taint);
            compare_forests(*f, v, *b.f, s.leaves(), b.taint);
        }
        // messages
        auto any = [&](const std::vector<H>& w) { return w[r.below(w.size())]; };
        int i = (int)r.below(blks.size());
        const Blk& k = blks[i];
        uint64_t adds = k.adds.size();
        auto pos = k.delpos;
        auto dels = k.dels;
        UndoBatch one = lib([&] { return UndoBatch(adds, pos, dels); }), back;
        Bytes bytes;
        lib([&] { one.Serialize(bytes); return back.Unserialize(bytes); });
        compare_undo(one, back, true);
        switch ((style >> 3) % 6) {
        case 0: adds += uint64_t(1) << r.below(33); break;
        case 1:
            if (!pos.empty()) pos[r.below(pos.size())] ^= uint64_t(1) << r.below(32);
            break;
        case 2:
            if (!dels.empty()) dels[r.below(dels.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8));
            break;
        case 3:
            if (!dels.empty()) dels.pop_back(), pos.pop_back();
            break;
        case 4: dels.push_back(junk(r)), pos.push_back(r.below(100)); break;
        case 5:
            if (dels.size() > 1) std::swap(dels[0], dels[r.below(dels.size())]);
            break;
        }
        bool same = adds == k.adds.size() && pos == k.delpos && dels == k.dels;
        UndoBatch two = lib([&] { return UndoBatch(adds, pos, dels); });
        compare_undo(one, two, same);
        compare_undo(two, one, same);
        auto want = pick_live(s, r, style >> 6);
        Req g = genuine_req(s, want);
        shuffle(g.targets, r);
        auto tg = g.targets;
        auto ph = g.proof;
        BatchProof p1 = lib([&] { return BatchProof(tg, ph); }), pb;
        lib([&] { p1.Serialize(bytes); return pb.Unserialize(bytes); });
        compare_proof(p1, pb, true);
        switch (r.below(7)) {
        case 0:
            if (!tg.empty()) tg[r.below(tg.size())] ^= uint64_t(1) << r.below(64);
            break;
        case 1:
            if (!ph.empty()) ph[r.below(ph.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8));
            break;
        case 2:
            if (!tg.empty()) tg.pop_back();
            break;
        case 3:
            if (!ph.empty()) ph.pop_back();
            break;
        case 4: ph.push_back(ph.empty() ? junk(r) : any(ph)); break;
        case 5: shuffle(tg, r); break;
        case 6:
            if (ph.size() > 1) std::swap(ph[0], ph[r.below(ph.size())]);
            break;
        }
        same = tg == g.targets && ph == g.proof;
        BatchProof p2 = lib([&] { return BatchProof(tg, ph); });
        compare_proof(p1, p2, same);
        compare_proof(p2, p1, same);
        interesting();
        say("compared at %d style %u", b.tip, style % 8);
    }
    // -------- answers and the objects that receive them
    std::vector<H> junk_hashes(Rng& r, uint64_t most)
    {
        std::vector<H> v;
        for (uint64_t k = r.below(most + 1); k; k--) v.push_back(junk(r));
        return v;
    }
    // an object that has been used for something else
    BatchProof used_proof(const State& s, Rng& r)
    {
        std::vector<uint64_t> tg;
        std::vector<H> ph;
        if (r.chance(1, 3) && s.n()) {
            Req g = genuine_req(s, pick_live(s, r, (uint32_t)r.below(5)));
            tg = g.targets;
            ph = g.proof;
        } else {
            for (uint64_t k = r.below(r.chance(1, 2) ? 5 : 60); k; k--) tg.push_back(r.next() >> r.below(64));
            ph = junk_hashes(r, r.chance(1, 2) ? 4 : 60);
        }
        if (r.chance(1, 2)) return lib([&] { return BatchProof(tg, ph); });
        BatchProof p;
        Bytes b;
        lib([&] { BatchProof(tg, ph).Serialize(b); return p.Unserialize(b); });
        return p;
    }
    UndoBatch used_undo(Rng& r)
    {
        std::vector<uint64_t> pos;
        std::vector<H> h;
        for (uint64_t k = r.below(r.chance(1, 2) ? 5 : 60); k; k--) pos.push_back(r.below(1000)), h.push_back(junk(r));
        uint64_t adds = r.below(1000);
        return lib([&] { return UndoBatch(adds, pos, h); });
    }
    Bytes used_bytes(Rng& r)
    {
        Bytes b(r.below(r.chance(1, 2) ? 64 : 4000));
        for (auto& x : b) x = (uint8_t)r.next();
        return b;
    }
    // How many hashes a proof of these leaves needs where nothing is known but the roots.
    static size_t proof_len(std::set<uint64_t> known, uint64_t n)
    {
        size_t c = 0;
        for (unsigned r = 0; r < 64 && !known.empty(); r++) {
            std::set<uint64_t> up;
            for (uint64_t i : known) {
                uint64_t m = n >> r;
                if ((m & 1) && i + 1 == m) continue; // a root
                if (!known.count(i ^ 1)) c++;
                up.insert(i >> 1);
            }
            known = std::move(up);
        }
        return c;
    }
    void sane(const BatchProof& p, uint64_t n, uint32_t taint)
    {
        std::set<uint64_t> d(p.GetTargets().begin(), p.GetTargets().end());
        bool want = d.size() == p.GetTargets().size() && (d.empty() || *d.rbegin() < n) && p.GetHashes().size() <= proof_len(d, n);
        bool got = lib([&] { return p.CheckSanity(n); });
        expect(P(23), taint, got == want, "message-sanity", std::string("a proof that is ") + (want ? "well-formed" : "malformed") + " for " + std::to_string(n) + " leaves passes for the opposite");
        probe(want ? "well-formed proof checked for sanity" : "malformed proof checked for sanity");
    }
    struct Quiet { // what the library prints
        std::ostringstream o;
        std::streambuf* old;
        Quiet() { old = std::cout.rdbuf(o.rdbuf()); }
        ~Quiet() { std::cout.rdbuf(old); }
    };
    template <class F>
    static std::string printed(F f)
    {
        std::string out;
        {
            Quiet q;
            f();
            out = q.o.str();
        }
        return out;
    }
    // hashes and numbers in a text, in order
    static void words(const std::string& s, std::vector<std::string>& hashes, std::vector<uint64_t>& nums, std::vector<std::pair<std::string, uint64_t>>* pairs = nullptr)
    {
        size_t i = 0;
        while (i < s.size()) {
            if (!isalnum((unsigned char)s[i])) {
                i++;
                continue;
            }
            size_t j = i;
            while (j < s.size() && isalnum((unsigned char)s[j])) j++;
            std::string w = s.substr(i, j - i);
            i = j;
            if (w.size() == 64) hashes.push_back(w);
            else if (w.size() <= 20 && w.find_first_not_of("0123456789") == std::string::npos) {
                nums.push_back(strtoull(w.c_str(), nullptr, 10));
                if (pairs && !hashes.empty()) pairs->push_back({hashes.back(), nums.back()});
            }
        }
    }
    static std::vector<std::string> hexes(const std::vector<H>& v)
    {
        std::vector<std::string> o;
        for (auto& h : v) o.push_back(hex(h, 32));
        return o;
    }
    static bool same_proof(const BatchProof& a, const BatchProof& b)
    {
        return a.GetTargets() == b.GetTargets() && a.GetSortedTargets() == b.GetSortedTargets() && a.GetHashes() == b.GetHashes();
    }
    void messages(const State& s, uint32_t taint, Rng& r)
    {
        BatchProof u = used_proof(s, r), v = used_proof(s, r);
        // encoding into a buffer that held something else
        Bytes b1, b2 = used_bytes(r), b3;
        lib([&] { u.Serialize(b1); u.Serialize(b2); return 0; });
        expect(P(25) | P(15), taint, b1 == b2, "used-buffer", "a proof encoded into a used buffer differs from one encoded into an empty one");
        // decoding into an object that held something else
        BatchProof f;
        bool okf = lib([&] { return f.Unserialize(b1); }), okv = lib([&] { return v.Unserialize(b1); });
        expect(P(25) | P(15), taint, okf && okv && same_proof(f, v), "used-object", "a proof decoded into a used object differs from one decoded into a new one");
        BatchProof w = used_proof(s, r), none;
        lib([&] { w.SetNull(); w.Serialize(b2); none.Serialize(b3); return 0; });
        expect(P(25), taint, same_proof(w, none) && b2 == b3 && lib([&] { return w == none; }), "emptied-object", "an emptied proof is not an empty proof");
        lib([&] { return w.Unserialize(b1); });
        expect(P(25) | P(15), taint, same_proof(w, f), "used-object", "a proof decoded into an emptied object differs from one decoded into a new one");
        // undo data
        UndoBatch x = used_undo(r), y = used_undo(r), z;
        b2 = used_bytes(r);
        lib([&] { x.Serialize(b1); x.Serialize(b2); return 0; });
        expect(P(25) | P(15), taint, b1 == b2, "used-buffer", "undo data encoded into a used buffer differs from that encoded into an empty one");
        bool oky = lib([&] { return y.Unserialize(b1); }), okz = lib([&] { return z.Unserialize(b1); });
        auto same_undo = [](const UndoBatch& m, const UndoBatch& n) { return m.GetNumAdds() == n.GetNumAdds() && m.GetDeletedPositions() == n.GetDeletedPositions() && m.GetDeletedHashes() == n.GetDeletedHashes(); };
        expect(P(25) | P(15), taint, oky && okz && same_undo(y, z) && same_undo(x, z), "used-object", "undo data decoded into a used object differs from that decoded into a new one");
        // printing shows what is there
        std::vector<std::string> hs;
        std::vector<uint64_t> ns;
        words(printed([&] { lib([&] { u.Print(); return 0; }); }), hs, ns);
        expect(P(25), taint, ns == u.GetTargets() && hs == hexes(u.GetHashes()), "printed-differs", "a printed proof shows something else");
        hs.clear();
        ns.clear();
        words(printed([&] { lib([&] { x.Print(); return 0; }); }), hs, ns);
        auto wantn = std::vector<uint64_t>{x.GetNumAdds()};
        for (uint64_t p : x.GetDeletedPositions()) wantn.push_back(p);
        expect(P(25), taint, ns == wantn && hs == hexes(x.GetDeletedHashes()), "printed-differs", "printed undo data shows something else");
        // sanity, for this set and for others
        for (int k = 0; k < 3; k++) {
            sane(u, s.n(), taint);
            sane(u, r.chance(1, 3) ? s.n() + r.below(8) : r.chance(1, 2) ? r.below(s.n() + 1) : r.next() >> (1 + r.below(63)), taint);
            if (!s.n()) break;
            Req g = genuine_req(s, pick_live(s, r, (uint32_t)r.below(5)));
            shuffle(g.targets, r);
            switch (r.below(6)) {
            case 0: break;
            case 1:
                if (!g.targets.empty()) g.targets.push_back(g.targets[r.below(g.targets.size())]);
                break;
            case 2: g.targets.push_back(s.n() + r.below(3)); break;
            case 3: g.proof.push_back(junk(r)); break;
            case 4:
                if (!g.proof.empty()) g.proof.pop_back();
                break;
            case 5: g.targets.push_back(r.below(s.n())); break;
            }
            u = lib([&] { return BatchProof(g.targets, g.proof); });
        }
    }
    // the same questions to one node, with other questions in between and with objects that have been used before
    void ask(const utreexo::Accumulator& x, const State& s, uint32_t taint, const std::vector<H>& want, bool full, Rng& r)
    {
        std::vector<H> r1, r2 = lib([&] { return junk_hashes(r, 70); });
        lib([&] { x.Roots(r1); x.Roots(r2); return 0; });
        expect(P(25), taint, r1 == r2, "used-object", "roots put into a used list differ from those put into an empty one");
        BatchProof p1, p2 = used_proof(s, r);
        bool ok1 = lib([&] { return x.Prove(p1, want); }), ok2 = lib([&] { return x.Prove(p2, want); });
        expect(P(25), taint, ok1 == ok2, "asked-twice", "a node gives two answers to one question");
        if (ok1) {
            Bytes b1, b2;
            lib([&] { p1.Serialize(b1); p2.Serialize(b2); return 0; });
            expect(P(25), taint, same_proof(p1, p2) && b1 == b2 && lib([&] { return p1 == p2; }), "used-object", "a proof put into a used object differs from one put into a new one");
        }
        // something else in between
        for (uint64_t k = r.below(5); k; k--) {
            BatchProof p = used_proof(s, r);
            switch (r.below(5)) {
            case 0: {
                H no = pick_absent(s, r);
                auto v = want;
                v.push_back(no);
                lib([&] { return x.Prove(p, v); });
                break;
            }
            case 1: {
                auto v = pick_live(s, r, (uint32_t)r.below(5));
                lib([&] { return x.Prove(p, v); });
                break;
            }
            case 2: {
                std::vector<std::string> hs;
                std::vector<uint64_t> ns;
                words(printed([&] { lib([&] { x.PrintRoots(); return 0; }); }), hs, ns);
                expect(P(25), taint, hs == hexes(r1), "printed-differs", "the printed roots are not the roots");
                break;
            }
            case 3: {
                std::vector<std::string> hs;
                std::vector<uint64_t> ns;
                std::vector<std::pair<std::string, uint64_t>> got;
                words(printed([&] { lib([&] { x.PrintPositionMap(); return 0; }); }), hs, ns, &got);
                std::map<std::string, uint64_t> all;
                for (auto& [h, q] : s.pos) all[hex(h, 32)] = q;
                bool ok = got.size() == hs.size() && (!full || got.size() == all.size());
                std::set<std::string> once;
                for (auto& [h, q] : got) {
                    auto it = all.find(h);
                    ok = ok && it != all.end() && it->second == q && once.insert(h).second;
                }
                expect(P(25), taint, ok, "printed-differs", "the printed positions are not the positions");
                break;
            }
            case 4:
                lib([&] { p.SetNull(); return x.Prove(p, {}); });
                break;
            }
        }
        BatchProof p3 = r.chance(1, 2) ? lib([&] { return p1; }) : used_proof(s, r);
        bool ok3 = lib([&] { return x.Prove(p3, want); });
        expect(P(25), taint, ok3 == ok1 && (!ok1 || same_proof(p1, p3)), "asked-twice", "a node answers differently after it has been asked something else");
        std::vector<H> r3 = lib([&] { return r1; });
        lib([&] { x.Roots(r3); return 0; });
        expect(P(25), taint, r3 == r1, "asked-twice", "a node reports other roots after it has been asked something else");
    }
    void reuse(Bridge& b, Client& c, uint32_t what, uint32_t c32)
    {
        Rng r(c32);
        const State& s = st(b.tip);
        messages(s, 0, r);
        auto want = pick_live(s, r, what);
        shuffle(want, r);
        ask(*b.f, s, b.taint, want, true, r);
        check_forest(b, P(25), "state-after-questions");
        {
            Snap before = snap(c, r);
            std::vector<H> mine;
            for (auto& h : c.remembered)
                if (r.chance(1, 2)) mine.push_back(h);
            uint64_t nodes = lib([&] { return c.p->CountNodes(); }), cached = lib([&] { return c.p->NumCachedLeaves(); });
            ask(*c.p, st(c.tip), c.taint, mine, false, r);
            expect(P(25), c.taint, nodes == lib([&] { return c.p->CountNodes(); }) && cached == lib([&] { return c.p->NumCachedLeaves(); }), "state-after-questions", "questions change what a pollard holds");
            lib([&] { return c.p->ComparePositionMap(*b.f); });
            lib([&] { return b.f->ComparePositionMap(*c.p); });
            unchanged(c, before, P(25), "state-after-questions");
        }
        // a full node may check proofs as often as it likes
        if (!want.empty()) {
            Req g = genuine_req(s, want), bad = g;
            BatchProof good = lib([&] { return BatchProof(g.targets, g.proof); });
            H& h = bad.proof.empty() || r.chance(1, 2) ? bad.hashes[r.below(bad.hashes.size())] : bad.proof[r.below(bad.proof.size())];
            h[r.below(32)] ^= (uint8_t)(1 << r.below(8));
            BatchProof wrong = lib([&] { return BatchProof(bad.targets, bad.proof); });
            for (uint64_t k = 1 + r.below(4); k; k--) {
                bool w = r.chance(1, 2);
                bool ok = lib([&] { return w ? b.f->Verify(wrong, bad.hashes) : b.f->Verify(good, g.hashes); });
                expect(P(25) | P(20), b.taint, ok == !w, "asked-twice", w ? "full node accepts a wrong proof among genuine ones" : "full node rejects a genuine proof among wrong ones");
            }
            check_forest(b, P(25), "state-after-questions");
        }
        // undo data written into an object that is used for every block
        if (what & 1) {
            std::vector<int> path;
            for (int x = b.tip; x > 0; x = blks[x].parent) path.push_back(x);
            if (path.size() <= 24 && t.cfg.maxleaves < 90) {
                auto f1 = fresh_memory(), f2 = fresh_memory();
                UndoBatch again = used_undo(r);
                for (auto it = path.rbegin(); it != path.rend(); ++it) {
                    const Blk& k = blks[*it];
                    auto lv = leaves_of(*it, -1);
                    if (r.chance(1, 8)) again = used_undo(r);
                    UndoBatch u;
                    bool ok = lib([&] { return f1->Modify(u, lv, k.delpos); }) && lib([&] { return f2->Modify(again, lv, k.delpos); });
                    expect(P(2), 0, ok, "bridge-modify-refused", "a fresh full node refuses a valid block");
                    expect(P(25) | P(9), 0, u.GetNumAdds() == again.GetNumAdds() && u.GetDeletedPositions() == again.GetDeletedPositions() && u.GetDeletedHashes() == again.GetDeletedHashes(), "used-object", "undo data put into a used object differs from that put into a new one");
                }
                std::string d = diff(*f2, s);
                expect(P(25) | P(2), 0, d.empty(), "state-after-questions", d);
                if (!path.empty()) {
                    expect(P(25) | P(9), 0, lib([&] { return f2->Undo(again); }), "undo-refused", "undo data from a used object is refused");
                    d = diff(*f2, st(blks[path[0]].parent));
                    expect(P(25) | P(9), 0, d.empty(), "used-object", "undo data from a used object leads elsewhere: " + d);
                }
                lib([&] { f1.reset(); f2.reset(); return 0; });
            }
        }
        interesting();
        say("asked again at %d and %d", b.tip, c.tip);
    }
    // Several threads at once: nodes of their own, and questions to the nodes that are there. Every answer must be what
    // it is when there is nobody else.
    using Question = std::function<void(Notes&)>;
    static std::string digest_of(const std::vector<H>& v)
    {
        uint64_t x = v.size();
        for (auto& h : v)
            for (auto c : h) x = (x ^ c) * 0x100000001b3ULL;
        return std::to_string(x);
    }
    static std::string digest_of(const BatchProof& p)
    {
        std::string o;
        for (auto t : p.GetTargets()) o += std::to_string(t) + ",";
        for (auto t : p.GetSortedTargets()) o += std::to_string(t) + ",";
        return o + digest_of(p.GetHashes());
    }
    static std::string digest_of(const Bytes& b)
    {
        uint64_t x = b.size();
        for (auto c : b) x = (x ^ c) * 0x100000001b3ULL;
        return std::to_string(x);
    }
    Question question(std::shared_ptr<BatchProof> m, std::shared_ptr<UndoBatch> u, uint32_t focus, Rng& r)
    {
        Bridge& b = B[r.below(B.size())];
        Client& c = C[r.below(C.size())];
        bool pollard = r.chance(1, 3);
        const utreexo::Accumulator* x = pollard ? static_cast<const utreexo::Accumulator*>(c.p.get()) : b.f.get();
        const RamForest* f = b.f.get();
        const State& s = st(pollard ? c.tip : b.tip);
        switch (focus < 11 && r.chance(3, 4) ? focus : r.below(11)) {
        case 0: return [x](Notes& o) {
                std::vector<H> v;
                lib([&] { x->Roots(v); return 0; });
                o.push_back("roots " + digest_of(v));
                lib([&] { std::vector<H>().swap(v); return 0; });
            };
        case 1:
            if (pollard) {
                const Pollard* p = c.p.get();
                return [p](Notes& o) { o.push_back("nodes " + std::to_string(lib([&] { return p->CountNodes(); }))); };
            }
            return [x](Notes& o) { o.push_back("leaves " + std::to_string(lib([&] { return x->NumLeaves(); }))); };
        case 2:
        case 3:
        case 4:
        case 5: {
            std::vector<H> want;
            if (pollard && r.chance(3, 4)) {
                for (auto& h : c.remembered)
                    if (r.chance(1, 2)) want.push_back(h);
            } else
                want = pick_live(s, r, (uint32_t)r.below(5));
            shuffle(want, r);
            if (r.chance(1, 6)) want.push_back(pick_absent(s, r));
            return [x, want](Notes& o) {
                auto p = lib([&] { return std::make_unique<BatchProof>(); });
                bool ok = lib([&] { return x->Prove(*p, want); });
                o.push_back(ok ? "proof " + digest_of(*p) : std::string("no proof"));
                lib([&] { p.reset(); return 0; });
            };
        }
        case 6: {
            utreexo::Accumulator* y = r.chance(1, 2) ? static_cast<utreexo::Accumulator*>(C[r.below(C.size())].p.get()) : B[r.below(B.size())].f.get();
            return [x, y](Notes& o) { o.push_back("positions agree " + std::to_string(lib([&] { return x->ComparePositionMap(*y); }))); };
        }
        case 7: {
            if (!st(b.tip).n()) return [f](Notes& o) { o.push_back("leaves " + std::to_string(lib([&] { return f->NumLeaves(); }))); };
            uint64_t i = r.below(st(b.tip).n());
            return [f, i](Notes& o) { o.push_back("leaf " + hex(lib([&] { return f->GetLeaf(i); }), 32)); };
        }
        case 8: {
            bool und = r.chance(1, 2);
            return [m, u, und](Notes& o) {
                Bytes v;
                lib([&] { und ? u->Serialize(v) : m->Serialize(v); return 0; });
                o.push_back("encoded " + digest_of(v));
                lib([&] { Bytes().swap(v); return 0; });
            };
        }
        case 9: {
            uint64_t n = r.chance(1, 2) ? s.n() : r.next() >> r.below(64);
            return [m, n](Notes& o) { o.push_back("in order " + std::to_string(lib([&] { return static_cast<const BatchProof&>(*m).CheckSanity(n); }))); };
        }
        default: return [m, u](Notes& o) { o.push_back("read " + digest_of(*m) + " " + std::to_string(u->GetNumAdds()) + " " + digest_of(u->GetDeletedHashes())); };
        }
    }
    void together(uint32_t a, uint32_t style, uint32_t c32)
    {
        Rng r(c32);
        start_zygote();
        size_t n = 2 + a % 3;
        struct Task {
            bool own = false;
            Life life{};
            std::string path;
            std::vector<Question> q;
            Notes alone, got;
        };
        std::vector<Task> k(n);
        auto m = std::make_shared<BatchProof>(used_proof(st(B[0].tip), r));
        auto u = std::make_shared<UndoBatch>(used_undo(r));
        auto answer = [](std::vector<Question>& q, Notes& o) {
            for (auto& f : q) {
                try {
                    f(o);
                } catch (const std::exception& e) {
                    o.push_back(std::string("exception: ") + e.what());
                }
            }
        };
        uint64_t total = 0;
        bool shared = false;
        const uint32_t focus = (uint32_t)r.below(22); // often all ask much the same
        const uint64_t own = r.chance(1, 3) ? 1 + r.below(4) : 3;
        for (size_t i = 0; i < n; i++) {
            Task& x = k[i];
            x.alone.reserve(256);
            x.got.reserve(256);
            x.own = r.chance(own, 5);
            if (x.own) {
                static const uint32_t sizes[] = {3, 8, 12, 17, 33};
                // the tasks tend to use the same leaves, at the same or at other positions
                x.life = Life{i && r.chance(1, 4) ? k[0].life.seed : r.next(), (uint32_t)r.below(2), sizes[r.below(5)], t.cfg.collide};
                x.path = place("forestp" + std::to_string(i));
                auto unl = [&] { ::unlink(x.path.c_str()); ::unlink((x.path + ".tmp").c_str()); };
                unl();
                uint64_t pts = 0;
                if (!live_alone(x.life, x.path, x.alone, pts)) {
                    probe("a node's life ended the process without anybody else");
                    unl();
                    return;
                }
                unl();
                total += pts;
            } else {
                shared = true;
                for (uint64_t j = 4 + r.below(20); j; j--) x.q.push_back(question(m, u, focus, r));
                par::Plan p;
                total += par::run({[&] { answer(x.q, x.alone); }}, p).points;
            }
        }
        // who runs when
        par::Plan plan;
        plan.seed = r.next();
        plan.patience = 4 * total + 100000;
        uint64_t num = style & 63;
        if (total) {
            switch ((style >> 6) & 3) {
            case 0:
                for (uint64_t i = num % 8; i; i--) plan.at.push_back(1 + r.below(total));
                break;
            case 1:
                for (uint64_t i = num; i; i--) plan.at.push_back(1 + r.below(total));
                break;
            case 2: { // one stretch in which the threads run in lock step
                uint64_t p = 1 + r.below(total), gap = uint64_t(1) << num % 6;
                for (uint64_t i = 0; i < 300; i++) plan.at.push_back(p += 1 + r.below(gap));
                break;
            }
            case 3: {
                uint64_t gap = std::max<uint64_t>(uint64_t(16) << num % 8, 2 * total / 2000);
                for (uint64_t p = 1 + r.below(gap); p < total; p += 1 + r.below(gap)) plan.at.push_back(p);
                break;
            }
            }
        }
        std::sort(plan.at.begin(), plan.at.end());
        std::vector<Snap> before;
        if (shared)
            for (auto& c : C) before.push_back(snap(c, r));
        std::vector<std::function<void()>> fs;
        for (auto& x : k) fs.push_back([&x, &answer] {
            if (x.own) live(x.life, x.path, x.got);
            else answer(x.q, x.got);
        });
        par::Report rep = par::run(fs, plan);
        stats.probes["threads run at once"] += n;
        stats.probes["points at which a thread can be preempted, passed"] += rep.points;
        stats.probes["switches between threads"] += rep.switches;
        reached(rep.trail);
        if (log) fprintf(log, "    (%llu points, %llu switches, schedule %016llx)\n", (unsigned long long)rep.points, (unsigned long long)rep.switches, (unsigned long long)rep.trail);
        for (auto& x : k)
            if (x.own) ::unlink(x.path.c_str()), ::unlink((x.path + ".tmp").c_str());
        uint64_t sum = n;
        for (size_t i = 0; i < n; i++) {
            Task& x = k[i];
            for (size_t j = 0; j < std::max(x.got.size(), x.alone.size()); j++) {
                std::string g = j < x.got.size() ? x.got[j] : "nothing", w = j < x.alone.size() ? x.alone[j] : "nothing";
                for (char ch : w) sum = (sum ^ (uint8_t)ch) * 0x100000001b3ULL;
                expect(P(26), 0, g == w, "concurrent-answer", (x.own ? "a node of its own in thread " : "shared objects asked in thread ") + std::to_string(i) + " of " + std::to_string(n) + ", answer " + std::to_string(j) + ": " + g + "; with nobody else: " + w);
            }
        }
        if (shared) {
            for (auto& b : B) check_forest(b, P(26), "state-after-questions");
            for (size_t i = 0; i < C.size(); i++) unchanged(C[i], before[i], P(26), "state-after-questions");
        }
        interesting();
        probe(shared ? "threads sharing nodes they only ask" : "threads with nodes of their own");
        say("%zu threads at once: %016llx", n, (unsigned long long)sum);
    }
    void same_leaves(const RamForest& f, const std::vector<H>& v)
    {
        State m(v);
        std::string d = diff(f, m);
        expect(P(1) | P(2), 0, d.empty(), "fresh-node-differs", d);
    }
    // positions no honest block could ask to delete
    std::vector<uint64_t> bad_targets(const State& s, uint32_t kind, Rng& r)
    {
        uint64_t n = s.n();
        std::vector<uint64_t> v;
        auto some = [&](uint64_t k) {
            std::set<uint64_t> d;
            for (uint64_t i = 0; i < k && n; i++) d.insert(r.below(n));
            v.assign(d.begin(), d.end());
        };
        switch (kind % 6) {
        case 0: // unsorted
            some(1 + r.below(5));
            if (v.size() < 2) return {n + r.below(3)};
            std::swap(v[r.below(v.size() - 1)], v.back());
            if (std::is_sorted(v.begin(), v.end())) std::reverse(v.begin(), v.end());
            break;
        case 1: // repeated
            some(1 + r.below(5));
            if (v.empty()) return {0, 0};
            v.insert(v.begin() + (long)r.below(v.size()), v[0]);
            std::sort(v.begin(), v.end());
            break;
        case 2: // beyond the last leaf
            some(r.below(4));
            v.push_back(n + r.below(4));
            break;
        case 3: // internal nodes, far away
            some(r.below(4));
            v.push_back(r.chance(1, 2) ? n * 2 + r.below(8) + 1 : (r.next() | (n + 1)));
            if (v.back() < n) v.back() = n;
            break;
        case 4: // more than there are
            for (uint64_t i = 0; i <= n + r.below(3); i++) v.push_back(i);
            break;
        case 5: // all but shifted
            for (uint64_t i = 0; i < n; i++) v.push_back(i + 1);
            if (v.empty()) v.push_back(0);
            break;
        }
        return v;
    }
    void bbad(Bridge& b, uint32_t kind, uint32_t c)
    {
        Rng r(c);
        const State& s = st(b.tip);
        bool ok;
        if (kind & 1) {
            auto tg = bad_targets(s, kind >> 1, r);
            std::vector<Leaf> add;
            if (r.chance(1, 2)) add.emplace_back(new_leaf(), false);
            UndoBatch u;
            ok = metered_request(b.taint, add.size() + tg.size(), [&] { return b.f->Modify(u, add, tg); });
            say("bad modify kind %u -> %d", (kind >> 1) % 6, (int)ok);
            expect(P(18), b.taint, !ok, "bad-modify-accepted", "full node accepts malformed deletions");
        } else {
            uint64_t n = s.n(), adds = r.below(n + 1);
            std::vector<uint64_t> pos;
            std::vector<H> hs;
            // a well-formed batch first
            uint64_t nd = r.below(4), prev = n - adds + nd;
            std::set<uint64_t> d;
            while (d.size() < nd && d.size() < prev) d.insert(r.below(prev));
            pos.assign(d.begin(), d.end());
            nd = pos.size();
            for (uint64_t i = 0; i < nd; i++) hs.push_back(junk(r));
            switch ((kind >> 1) % 7) {
            case 0: adds = n + 1 + r.below(5); break;
            case 1: adds = n + 1 + (r.next() & 0xffffffff); break;
            case 2: // hashes and positions do not match
                if (r.chance(1, 2)) hs.push_back(junk(r));
                else pos.push_back(n - adds + nd);
                break;
            case 3: // unsorted or repeated positions
                if (pos.empty()) return;
                pos.push_back(pos[0]);
                hs.push_back(junk(r));
                break;
            case 4: // beyond the previous forest
                pos.push_back(n - adds + nd + 1 + r.below(100));
                hs.push_back(junk(r));
                break;
            case 5: { // "deleted" leaf that is there, and was not added by that block
                if (adds >= n) return;
                pos = {r.below(n - adds + 1)};
                hs = {s.leaves()[r.below(n - adds)]};
                break;
            }
            case 6: { // one leaf deleted from two places
                if (nd < 2) {
                    pos = {0, 1};
                    adds = std::min(adds, n);
                    hs = {junk(r), junk(r)};
                    if (r.chance(1, 3) && adds) hs[0] = s.leaves()[n - 1 - r.below(adds)]; // spent and created again by that block
                    nd = 2;
                }
                hs[nd - 1] = hs[r.below(nd - 1)];
                break;
            }
            }
            UndoBatch u = lib([&] { return UndoBatch(adds, pos, hs); });
            ok = metered_request(b.taint, pos.size() + hs.size(), [&] { return b.f->Undo(u); });
            say("bad undo kind %u (adds %llu) -> %d", (kind >> 1) % 7, (unsigned long long)adds, (int)ok);
            expect(P(18), b.taint, !ok, "bad-undo-accepted", "full node accepts undo data that cannot belong to its state (kind " + std::to_string((kind >> 1) % 7) + ")");
        }
        b.taint |= P(18);
        check_forest(b, P(18), "state-after-bad-request");
        auto want = pick_live(s, r, 2);
        if (!want.empty()) prove_check(b, want, P(18) | P(2), "proof-after-bad-request");
        interesting();
    }

    // -------- clients
    std::vector<H> some_roots(const Pollard& p)
    {
        std::vector<H> roots;
        lib([&] { p.Roots(roots); return 0; });
        return std::vector<H>(roots.begin(), roots.end());
    }
    uint64_t node_bound(const Client& c)
    {
        const State& s = st(c.tip);
        std::set<std::pair<unsigned, uint64_t>> nodes;
        for (unsigned r = 0; r < s.rows.size(); r++)
            if ((s.n() >> r) & 1) nodes.insert({r, (s.n() >> r) - 1});
        for (auto& h : c.remembered) {
            auto it = s.pos.find(h);
            if (it == s.pos.end()) continue;
            uint64_t i = it->second;
            for (unsigned r = 0; !s.is_root(r, i); r++, i >>= 1) {
                nodes.insert({r, i});
                nodes.insert({r, i ^ 1});
            }
        }
        return nodes.size();
    }
    // What a pollard gives back when it is destroyed is what it held: all of it must belong to its roots and the branches
    // of its remembered leaves, wherever the library keeps it.
    void release(Client& c, bool whole = true)
    {
        uint64_t bound = node_bound(c), roots = st(c.tip).roots.size();
        long held = seam::live_lib_allocs();
        lib([&] { c.p.reset(); return 0; });
        held -= seam::live_lib_allocs();
        if (whole) expect(P(19), c.taint, held <= (long)(2 * (bound + roots + c.remembered.size()) + 24), "memory-held", "a destroyed pollard gives back " + std::to_string(held) + " pieces of memory; its roots and the branches of its " + std::to_string(c.remembered.size()) + " remembered leaves are " + std::to_string(bound) + " nodes");
    }
    void check_client(Client& c, uint32_t mask, const char* cls)
    {
        same(*c.p, c.tip, mask, c.taint, cls);
        uint64_t cached = lib([&] { return c.p->NumCachedLeaves(); });
        expect(P(6), c.taint, cached == c.remembered.size(), "remembered-count", "pollard remembers " + std::to_string(cached) + " leaves instead of " + std::to_string(c.remembered.size()));
        uint64_t nodes = lib([&] { return c.p->CountNodes(); }), bound = node_bound(c);
        expect(P(19), c.taint, nodes <= bound, "too-many-nodes", "pollard holds " + std::to_string(nodes) + " nodes; its roots and the branches of its " + std::to_string(c.remembered.size()) + " remembered leaves are " + std::to_string(bound));
        const State& s = st(c.tip);
        for (auto& g : c.ghosts) {
            if (s.pos.count(g)) continue;
            BatchProof p;
            expect(P(5) | P(7), c.taint, !lib([&] { return c.p->Prove(p, {g}); }), "rejected-hash-provable", "pollard proves a hash it was only ever shown in rejected proofs");
        }
        uint64_t h = hash2(s.n(), nodes);
        for (auto& x : c.remembered) h += hash2(17, s.pos.count(x) ? s.pos.at(x) : 99999);
        reached(h);
    }
    struct Snap {
        std::vector<H> roots;
        uint64_t n, cached, nodes;
        std::vector<std::pair<H, bool>> prov;
    };
    Snap snap(Client& c, Rng& r)
    {
        Snap s;
        s.roots = some_roots(*c.p);
        lib([&] { s.n = c.p->NumLeaves(); s.cached = c.p->NumCachedLeaves(); s.nodes = c.p->CountNodes(); return 0; });
        const State& m = st(c.tip);
        std::vector<H> ask;
        size_t k = 0;
        for (auto& h : c.remembered)
            if (k++ < 4 || r.chance(1, 4)) ask.push_back(h);
        for (int i = 0; i < 2 && m.n(); i++) ask.push_back(m.leaves()[r.below(m.n())]);
        for (auto& h : ask) {
            BatchProof p;
            bool ok = lib([&] { return c.p->Prove(p, {h}); });
            s.prov.push_back({h, ok && proof_diff(p, {h}, m).empty()});
        }
        return s;
    }
    void unchanged(Client& c, const Snap& s, uint32_t mask, const char* cls)
    {
        uint64_t n, cached, nodes;
        lib([&] { n = c.p->NumLeaves(); cached = c.p->NumCachedLeaves(); nodes = c.p->CountNodes(); return 0; });
        expect(mask, c.taint, n == s.n && some_roots(*c.p) == s.roots, cls, "roots or leaf count changed");
        expect(mask, c.taint, cached == s.cached, cls, "remembered leaves went from " + std::to_string(s.cached) + " to " + std::to_string(cached));
        expect(mask, c.taint, nodes == s.nodes, cls, "nodes went from " + std::to_string(s.nodes) + " to " + std::to_string(nodes));
        for (auto& [h, was] : s.prov) {
            BatchProof p;
            bool ok = lib([&] { return c.p->Prove(p, {h}); });
            expect(mask, c.taint, (ok && proof_diff(p, {h}, st(c.tip)).empty()) == was, cls, "ability to prove a leaf changed");
        }
    }
    static bool is_true(const std::vector<uint64_t>& sorted, const std::vector<H>& hashes, const State& s)
    {
        if (sorted.size() != hashes.size()) return false;
        for (size_t i = 0; i < sorted.size(); i++) {
            if (i && sorted[i] <= sorted[i - 1]) return false;
            if (sorted[i] >= s.n() || s.leaves()[sorted[i]] != hashes[i]) return false;
        }
        return true;
    }
    enum Must { ANY, ACCEPT, REJECT };
    void add_ghosts(Client& c, const std::vector<H>& hashes)
    {
        for (auto& h : hashes) {
            if (st(c.tip).pos.count(h)) continue;
            if (c.ghosts.size() < 16) c.ghosts.push_back(h);
            else c.ghosts[(size_t)(loghash % 16)] = h;
        }
    }
    bool cverify(Client& c, const BatchProof& bp, const std::vector<H>& hashes, Must must, uint32_t mask, const char* cls)
    {
        Rng r(hash2(loghash, 5));
        Snap s = snap(c, r);
        bool truth = is_true(bp.GetSortedTargets(), hashes, st(c.tip));
        bool ok = metered(*c.p, c.taint, bp, hashes);
        say("verify %zu targets, %zu hashes at %d -> %d", bp.GetSortedTargets().size(), bp.GetHashes().size(), c.tip, (int)ok);
        expect(P(4), c.taint, !ok || truth, "false-proof-accepted", "pollard accepts hashes that are not the live leaves at the claimed positions");
        if (must == ACCEPT) expect(mask, c.taint, ok, cls, "pollard rejects a genuine proof");
        if (must == REJECT) expect(mask, c.taint, !ok, cls, "pollard accepts a proof it must reject");
        if (ok) {
            for (auto& h : hashes) c.remembered.insert(h);
        } else {
            unchanged(c, s, P(5), "rejected-proof-left-traces");
            add_ghosts(c, hashes);
            c.taint |= P(5);
            interesting();
        }
        check_client(c, P(5) | P(6), "state-after-verify");
        return ok;
    }
    void capply(Client& c, int blk, const std::vector<uint64_t>& targets)
    {
        auto leaves = leaves_of(blk, c.policy);
        bool ok = lib([&] { return c.p->Modify(leaves, targets); });
        expect(P(2) | P(3), c.taint, ok, "client-modify-refused", "pollard refuses a verified block");
        c.tip = blk;
        for (auto& h : blks[blk].dels) c.remembered.erase(h);
        for (auto& l : leaves)
            if (l.second) c.remembered.insert(l.first);
        say("client applied %d, remembers %zu", blk, c.remembered.size());
        check_client(c, P(2), "client-state-after-block");
        // everything remembered must be provable alone, right now
        check_remembered(c, false);
    }
    void check_remembered(Client& c, bool deep)
    {
        size_t i = 0;
        Rng r(hash2(loghash, 9));
        for (auto& h : c.remembered) {
            if (!deep && i++ > 6 && !r.chance(1, 8)) continue;
            BatchProof p;
            bool ok = lib([&] { return c.p->Prove(p, {h}); });
            expect(P(6), c.taint, ok, "remembered-not-provable", "pollard cannot prove leaf " + hex(h) + " it remembers");
            std::string d = proof_diff(p, {h}, st(c.tip));
            expect(P(6) | P(7), c.taint, d.empty(), "remembered-proof-wrong", d);
        }
    }
    void rebuild(Client& c, int at, bool whole = true)
    {
        std::vector<H> roots = st(at).roots; // taken from a checkpoint
        uint64_t n = st(at).n();
        release(c, whole);
        lib([&] {
            c.p = std::make_unique<Pollard>(roots, n);
            return 0;
        });
        c.tip = at;
        c.remembered.clear();
        say("client rebuilt from the roots of block %d", at);
        check_client(c, P(2), "state-after-rebuild");
    }
    int fork_point(int a, int b) const
    {
        while (a != b) {
            if (blks[a].height >= blks[b].height) a = blks[a].parent;
            else b = blks[b].parent;
        }
        return a;
    }
    void ensure_proof(int blk)
    {
        Blk& k = blks[blk];
        if (k.have_proof) return;
        for (auto& b : B)
            if (b.f && b.tip == k.parent) {
                BatchProof p;
                bool ok = lib([&] { return b.f->Prove(p, k.dels); });
                expect(P(2) | P(3), b.taint, ok, "bridge-cannot-prove", "full node cannot prove the leaves of a block");
                Bytes bytes;
                lib([&] { p.Serialize(bytes); return 0; });
                k.proof = Bytes(bytes.begin(), bytes.end());
                k.have_proof = true;
                return;
            }
        BatchProof p = lib([&] { return BatchProof(k.delpos, st(k.parent).proof(k.delpos)); });
        Bytes bytes;
        lib([&] { p.Serialize(bytes); return 0; });
        k.proof = Bytes(bytes.begin(), bytes.end());
        k.have_proof = true;
        probe("block proof served from the model because no full node was there");
    }
    bool send(int ci)
    {
        Client& c = C[ci];
        if (c.tip == best) return false;
        if (!is_ancestor(c.tip, best)) {
            rebuild(c, fork_point(c.tip, best)); // reorganisation: pollards start again from the fork's roots
            probe("client reorganised");
            if (c.tip == best) return true;
        }
        int nx = next_towards(c.tip, best);
        ensure_proof(nx);
        net.push_back({ci, nx, blks[nx].proof, blks[nx].dels});
        if (net.size() > 24) net.erase(net.begin());
        return true;
    }
    static bool ref_decode(const Bytes& b, std::vector<uint64_t>& tg, std::vector<H>& ph)
    {
        if (b.size() < 8) return false;
        auto be = [&](size_t o) { return (uint64_t(b[o]) << 24) | (uint64_t(b[o + 1]) << 16) | (uint64_t(b[o + 2]) << 8) | b[o + 3]; };
        uint64_t nt = be(0), nh = be(4);
        if (b.size() != 8 + nt * 4 + nh * 32) return false;
        for (uint64_t i = 0; i < nt; i++) tg.push_back(be(8 + 4 * i));
        for (uint64_t i = 0; i < nh; i++) {
            H h;
            memcpy(h.data(), b.data() + 8 + 4 * nt + 32 * i, 32);
            ph.push_back(h);
        }
        return true;
    }
    std::string decode_diff(const BatchProof& p, const Bytes& b)
    {
        std::vector<uint64_t> tg;
        std::vector<H> ph;
        if (!ref_decode(b, tg, ph)) return "bytes that are no proof were decoded";
        if (p.GetTargets() != tg) return "decoded positions differ from the bytes";
        if (p.GetHashes() != ph) return "decoded hashes differ from the bytes";
        std::sort(tg.begin(), tg.end());
        if (p.GetSortedTargets() != tg) return "decoded sorted positions hold something else than the message's positions";
        return "";
    }
    // decode into the client's (reused) object
    bool decode(Client& c, const Bytes& bytes, bool genuine)
    {
        seam::set_alloc_cap(0, 48 * bytes.size() + 16384);
        bool ok = false, threw = false;
        try {
            ok = lib([&] { return c.rx.Unserialize(bytes); });
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        bool cap = seam::alloc_cap_hit();
        seam::set_alloc_cap(0, 0);
        need(P(15) | P(24), !cap && !threw, "decode-memory", "decoding " + std::to_string(bytes.size()) + " bytes asks for memory out of proportion");
        if (genuine) need(P(15) | P(3), ok, "genuine-bytes-rejected", "bytes written by Serialize do not decode");
        if (ok) {
            std::string d = decode_diff(c.rx, bytes);
            need(P(15), d.empty(), "decode-differs", d);
            Bytes back;
            lib([&] { c.rx.Serialize(back); return 0; });
            need(P(15), back == bytes, "reencode-differs", "encoding the decoded message gives other bytes");
        }
        return ok;
    }
    void corrupt(Bytes& b, uint32_t fault, Rng& r)
    {
        switch (fault) {
        case 1: // bit flips
            for (uint64_t k = 1 + r.below(3); k && !b.empty(); k--) b[r.below(b.size())] ^= (uint8_t)(1 << r.below(8));
            break;
        case 2: // lost tail
            if (!b.empty()) b.resize(r.below(b.size()));
            break;
        case 3: // extra tail
            for (uint64_t k = 1 + r.below(40); k; k--) b.push_back((uint8_t)r.next());
            break;
        case 4: // counts
            if (b.size() >= 8) b[r.below(8)] = (uint8_t)r.next();
            break;
        case 5: // a block of 4 or 32 bytes lost in the middle
            if (b.size() > 40) {
                size_t k = r.chance(1, 2) ? 4 : 32, o = 8 + r.below(b.size() - 8 - k + 1);
                b.erase(b.begin() + (long)o, b.begin() + (long)(o + k));
                if (r.chance(1, 2) && k == 32 && b[7]) b[7]--; // and the count is right for it
            }
            break;
        case 6: // zeroed range
            if (b.size() > 8) {
                size_t o = 8 + r.below(b.size() - 8), k = std::min<size_t>(b.size() - o, 32);
                memset(b.data() + o, 0, k);
            }
            break;
        }
    }
    void hand_over(Msg m, uint32_t fault, uint32_t c32)
    {
        Client& c = C[m.to];
        Rng r(c32);
        const char* fn = "none";
        bool hashes_touched = false;
        switch (fault % 12) {
        case 1: case 2: case 3: case 4: case 5: case 6:
            corrupt(m.bytes, fault % 12, r);
            fn = "corrupt";
            break;
        case 7: // payload of another message in flight
            if (!net.empty()) m.bytes = net[r.below(net.size())].bytes;
            fn = "splice";
            break;
        case 8: // hashes reordered
            shuffle(m.hashes, r);
            hashes_touched = true;
            fn = "reorder hashes";
            break;
        case 9:
            if (!m.hashes.empty()) m.hashes[r.below(m.hashes.size())] = pick_absent(st(c.tip), r);
            hashes_touched = true;
            fn = "replace hash";
            break;
        case 10:
            if (!m.hashes.empty()) m.hashes.erase(m.hashes.begin() + (long)r.below(m.hashes.size()));
            else
                m.hashes.push_back(junk(r));
            hashes_touched = true;
            fn = "lose hash";
            break;
        default: break;
        }
        (void)hashes_touched;
        bool next = blks[m.blk].parent == c.tip;
        bool genuine = next && m.bytes == blks[m.blk].proof && m.hashes == blks[m.blk].dels;
        say("deliver block %d to client %d at %d fault %s%s", m.blk, m.to, c.tip, fn, genuine ? " genuine" : "");
        stats.probes[std::string("message fault: ") + (fault % 12 == 0 || fault % 12 == 11 ? (next ? "none" : "late or duplicate") : fn)]++;
        if (!decode(c, m.bytes, m.bytes == blks[m.blk].proof)) {
            interesting();
            return;
        }
        bool ok = cverify(c, c.rx, m.hashes, genuine ? ACCEPT : ANY, P(3), "genuine-block-rejected");
        if (ok && next && m.hashes == blks[m.blk].dels) {
            std::vector<uint64_t> tg = c.rx.GetSortedTargets();
            capply(c, m.blk, tg);
            if (genuine && fault % 12 == 0) c.taint |= 0;
        }
        if (!genuine) interesting();
    }
    void deliver(uint32_t a, uint32_t fault, uint32_t c)
    {
        if (net.empty()) return;
        size_t i = a % net.size();
        Msg m = net[i];
        if (fault == 13) { // lost
            net.erase(net.begin() + (long)i);
            probe("message fault: lost");
            return;
        }
        if (fault != 14) net.erase(net.begin() + (long)i); // 14: arrives now and again later
        else
            probe("message fault: duplicated");
        hand_over(m, fault == 14 ? 0 : fault, c);
    }
    void sync(uint32_t a, uint32_t fault, uint32_t c)
    {
        int ci = (int)(a % C.size());
        if (!send(ci)) return;
        if (net.empty() || net.back().to != ci) return;
        Msg m = net.back();
        if (fault % 12) hand_over(m, fault, c); // the corrupted copy arrives first, the original is still in flight
        net.pop_back();
        if (fault & 16) net.push_back(m); // stays in flight as a duplicate
        if (blks[m.blk].parent == C[ci].tip) hand_over(m, 0, c);
    }
    Req genuine_req(const State& s, const std::vector<H>& hashes)
    {
        Req q;
        for (auto& h : hashes) q.targets.push_back(s.pos.at(h));
        std::vector<uint64_t> so = q.targets;
        std::sort(so.begin(), so.end());
        q.proof = s.proof(so);
        q.targets = so;
        for (auto p : so) q.hashes.push_back(s.leaves()[p]);
        return q;
    }
    std::set<std::pair<unsigned, uint64_t>> held(const Client& c, bool upper)
    { // nodes the pollard must hold for its remembered leaves (upper: may hold)
        const State& s = st(c.tip);
        std::set<std::pair<unsigned, uint64_t>> nodes;
        for (unsigned r = 0; r < s.rows.size(); r++)
            if ((s.n() >> r) & 1) nodes.insert({r, (s.n() >> r) - 1});
        for (auto& h : c.remembered) {
            uint64_t i = s.pos.at(h);
            for (unsigned r = 0; !s.is_root(r, i); r++, i >>= 1) {
                if (upper) nodes.insert({r, i});
                nodes.insert({r, i ^ 1});
            }
        }
        return nodes;
    }
    H some_hash(const State& s, Rng& r)
    {
        switch (r.below(5)) {
        case 0: return junk(r);
        case 1: {
            H z;
            z.fill(0);
            return z;
        }
        case 2:
            if (s.n()) return s.leaves()[r.below(s.n())];
            return junk(r);
        case 3: {
            auto& row = s.rows[r.below(s.rows.size())];
            if (!row.empty()) return row[r.below(row.size())];
            return junk(r);
        }
        default:
            if (!graveyard.empty()) return graveyard[r.below(graveyard.size())];
            return junk(r);
        }
    }
    void mutate(Req& q, Client& c, const State& s, Rng& r)
    {
        auto any = [&](size_t n) { return r.below(n); };
        switch (r.below(17)) {
        case 0:
            if (!q.hashes.empty()) q.hashes[any(q.hashes.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8));
            break;
        case 1:
        case 2:
            if (!q.hashes.empty()) q.hashes[any(q.hashes.size())] = some_hash(s, r);
            break;
        case 3:
            if (q.hashes.size() > 1) std::swap(q.hashes[any(q.hashes.size())], q.hashes[any(q.hashes.size())]);
            break;
        case 4: // another position
            if (!q.targets.empty()) q.targets[any(q.targets.size())] = r.below(s.n() + 2);
            break;
        case 5:
            if (!q.proof.empty()) q.proof.erase(q.proof.begin() + (long)any(q.proof.size()));
            break;
        case 6: q.proof.insert(q.proof.begin() + (long)any(q.proof.size() + 1), some_hash(s, r)); break;
        case 7:
            if (!q.proof.empty()) q.proof[any(q.proof.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8));
            break;
        case 8:
            if (!q.proof.empty()) q.proof[any(q.proof.size())] = some_hash(s, r);
            break;
        case 9: q.proof.clear(); break;
        case 10: { // leave out what the pollard holds
            auto at = [&] {
                auto v = q.targets;
                std::sort(v.begin(), v.end());
                v.erase(std::unique(v.begin(), v.end()), v.end());
                while (!v.empty() && v.back() >= s.n()) v.pop_back();
                return s.proof_at(v);
            }();
            if (at.size() != q.proof.size()) break;
            auto hs = held(c, r.chance(1, 2));
            std::vector<H> np;
            for (size_t i = 0; i < at.size(); i++)
                if (!hs.count(at[i])) np.push_back(q.proof[i]);
            q.proof = np;
            break;
        }
        case 11: { // an extra, false target, with the proof hashes an honest prover would send for the larger set
            if (!s.n()) break;
            uint64_t p = r.below(s.n());
            if (std::count(q.targets.begin(), q.targets.end(), p)) break;
            std::map<uint64_t, H> m;
            for (size_t i = 0; i < q.targets.size() && i < q.hashes.size(); i++) m[q.targets[i]] = q.hashes[i];
            m[p] = r.chance(1, 2) ? some_hash(s, r) : s.leaves()[p];
            q.targets.clear();
            q.hashes.clear();
            for (auto& [k, v] : m) q.targets.push_back(k), q.hashes.push_back(v);
            std::vector<uint64_t> v;
            for (auto x : q.targets)
                if (x < s.n()) v.push_back(x);
            q.proof = s.proof(v);
            break;
        }
        case 12: // order of the target list
            if (q.targets.size() > 1) std::swap(q.targets[any(q.targets.size())], q.targets[any(q.targets.size())]);
            break;
        case 13: // repeated target
            if (!q.targets.empty()) {
                size_t i = any(q.targets.size());
                q.targets.insert(q.targets.begin() + (long)i, q.targets[i]);
                if (r.chance(1, 2) && i < q.hashes.size()) q.hashes.insert(q.hashes.begin() + (long)i, q.hashes[i]);
            }
            break;
        case 14: // beyond the leaves
            if (!q.targets.empty()) q.targets[any(q.targets.size())] = s.n() + (r.chance(1, 2) ? r.below(s.n() + 3) : r.next() >> r.below(40));
            break;
        case 15: // number of hashes
            if (!q.hashes.empty() && r.chance(1, 2)) q.hashes.pop_back();
            else q.hashes.push_back(some_hash(s, r));
            break;
        case 16: { // forged sibling pair: a false leaf with a matching false sibling in the proof
            if (q.hashes.empty() || q.proof.empty()) break;
            q.hashes[any(q.hashes.size())] = junk(r);
            q.proof[0] = junk(r);
            break;
        }
        }
    }
    // Any positions at all with any number of hashes
    uint64_t wild_position(const State& s, Rng& r)
    {
        unsigned nrows = 0;
        while ((uint64_t(1) << nrows) < s.n()) nrows++;
        switch (r.below(7)) {
        case 0: return r.below(s.n() + 1);
        case 1: return s.n() + r.below(3) - 1;
        case 2: return (uint64_t(1) << (nrows + r.below(2))) + r.below(5) - 2;
        case 3: return (uint64_t(1) << r.below(64)) - r.below(2);
        case 4: return ~r.below(3);
        case 5: return r.next() >> r.below(64);
        default: return r.below(uint64_t(2) << nrows);
        }
    }
    Req wild(const State& s, Rng& r)
    {
        Req q;
        for (uint64_t k = r.below(r.chance(1, 4) ? 40 : 5); k; k--) q.targets.push_back(wild_position(s, r));
        if (r.chance(2, 3)) std::sort(q.targets.begin(), q.targets.end());
        for (uint64_t k = r.below(r.chance(1, 4) ? 60 : 8); k; k--) q.proof.push_back(some_hash(s, r));
        for (auto p : q.targets) q.hashes.push_back(p < s.n() && r.chance(1, 2) ? s.leaves()[p] : some_hash(s, r));
        if (r.chance(1, 4)) q.hashes.resize(r.below(q.hashes.size() + 3));
        probe("wild proof");
        return q;
    }
    Req forged(Client& c, uint32_t nmut, Rng& r, std::vector<H>& base)
    {
        const State& s = st(c.tip);
        Req q;
        base.clear();
        if (!c.last_targets.empty() && r.chance(1, 3)) { // keep at the same leaves
            for (auto p : c.last_targets)
                if (p < s.n()) base.push_back(s.leaves()[p]);
        } else if (!c.remembered.empty() && r.chance(1, 3)) { // remembered leaves and their surroundings
            std::set<uint64_t> d;
            for (auto& h : c.remembered)
                if (r.chance(1, 3)) {
                    uint64_t p = s.pos.at(h);
                    if (r.chance(2, 3)) d.insert(p);
                    if (r.chance(1, 2)) {
                        uint64_t x = p ^ (1 + r.below(3));
                        if (x < s.n()) d.insert(x);
                    }
                }
            for (auto p : d) base.push_back(s.leaves()[p]);
        }
        if (base.empty()) base = pick_live(s, r, (uint32_t)r.below(5));
        if (base.empty()) {
            q.targets = {r.below(3)};
            q.hashes = {some_hash(s, r)};
            return q;
        }
        const State* from = &s;
        if (r.chance(1, 6)) { // replay: a proof of these leaves from another height or fork
            int o = (int)r.below(blks.size());
            bool all = true;
            for (auto& h : base) all = all && st(o).pos.count(h);
            if (all) from = &st(o);
        }
        q = genuine_req(*from, base);
        c.last_targets = q.targets;
        if (r.chance(1, t.prop == 24 ? 3 : 12)) return wild(s, r);
        for (uint32_t i = 0; i < nmut; i++) mutate(q, c, s, r);
        return q;
    }
    void cattack(Client& c, uint32_t nmut, uint32_t c32)
    {
        Rng r(c32);
        std::vector<H> base;
        uint32_t rounds = 1 + (c32 >> 28) % 3;
        for (uint32_t i = 0; i < rounds; i++) {
            Req q = forged(c, nmut % 4, r, base);
            BatchProof bp = lib([&] { return BatchProof(q.targets, q.proof); });
            bool ok = cverify(c, bp, q.hashes, ANY, 0, "");
            if (!ok) probe("forged or stale proof rejected");
            else probe("mutated but still true proof accepted");
        }
        if (!base.empty() && r.chance(1, 2)) {
            Req g = genuine_req(st(c.tip), base);
            BatchProof bp = lib([&] { return BatchProof(g.targets, g.proof); });
            cverify(c, bp, g.hashes, ACCEPT, P(3), "genuine-proof-rejected");
        }
    }
    void cquery(Client& c, uint32_t style, uint32_t c32)
    {
        Rng r(c32);
        auto want = pick_live(st(c.tip), r, style);
        if (want.empty()) return;
        BatchProof p;
        bool real = false;
        for (auto& b : B)
            if (b.f && b.tip == c.tip && lib([&] { return b.f->Prove(p, want); })) {
                real = true;
                break;
            }
        if (!real) {
            Req g = genuine_req(st(c.tip), want);
            p = lib([&] { return BatchProof(g.targets, g.proof); });
        }
        cverify(c, p, want, ACCEPT, P(3), "genuine-proof-rejected");
        check_remembered(c, false);
        if (!c.remembered.empty()) interesting();
    }
    void cprove(Client& c, uint32_t style, uint32_t c32)
    {
        Rng r(c32);
        const State& s = st(c.tip);
        check_remembered(c, true);
        std::vector<H> want;
        for (auto& h : c.remembered)
            if (style % 3 == 0 || r.chance(1, 2)) want.push_back(h);
        shuffle(want, r);
        if (!want.empty()) {
            BatchProof p;
            bool ok = lib([&] { return c.p->Prove(p, want); });
            expect(P(6), c.taint, ok, "remembered-not-provable", "pollard cannot prove " + std::to_string(want.size()) + " leaves it remembers");
            std::string d = proof_diff(p, want, s);
            expect(P(6) | P(7), c.taint, d.empty(), "remembered-proof-wrong", d);
            std::vector<H> sorted = want;
            std::sort(sorted.begin(), sorted.end(), [&](const H& a, const H& b) { return s.pos.at(a) < s.pos.at(b); });
            // others at this height accept it
            for (auto& o : C)
                if (&o != &c && o.tip == c.tip) {
                    cverify(o, p, sorted, ACCEPT, P(6) | P(3), "peer-rejects-proof");
                    probe("client proof accepted by another client");
                    break;
                }
            for (auto& b : B)
                if (b.f && b.tip == c.tip) {
                    expect(P(6) | P(20), c.taint, lib([&] { return b.f->Verify(p, want); }), "bridge-rejects-client-proof", "full node rejects a pollard's proof");
                    break;
                }
            if (r.chance(1, 2)) { // a newcomer with nothing but the roots
                auto f = lib([&] { return std::make_unique<Pollard>(s.roots, s.n()); });
                expect(P(6) | P(3), c.taint, lib([&] { return f->Verify(p, sorted); }), "peer-rejects-proof", "a fresh pollard rejects the proof");
                lib([&] { f.reset(); return 0; });
            }
            interesting();
        }
        // what is not there cannot be proven; what was forgotten is proven rightly or not at all
        BatchProof p;
        H bad = pick_absent(s, r);
        expect(P(7), c.taint, !lib([&] { return c.p->Prove(p, {bad}); }), "absent-provable", "pollard proves a hash that is not there");
        auto v = want;
        v.insert(v.begin() + (long)r.below(v.size() + 1), bad);
        expect(P(7), c.taint, !lib([&] { return c.p->Prove(p, v); }), "absent-provable", "pollard proves a set that holds a hash that is not there");
        for (uint64_t i = 0; i < s.n(); i++) {
            if (s.n() > 24 && !r.chance(24, s.n())) continue;
            BatchProof q;
            std::vector<H> one{s.leaves()[i]};
            if (lib([&] { return c.p->Prove(q, one); })) {
                std::string d = proof_diff(q, one, s);
                expect(P(7), c.taint, d.empty(), "wrong-proof-given", "pollard returns a wrong proof: " + d);
            }
        }
        for (auto& b : B)
            if (b.f && b.tip == c.tip) {
                bool agree = true;
                try {
                    agree = lib([&] { return c.p->ComparePositionMap(*b.f); });
                } catch (const std::exception&) {
                    agree = false;
                }
                expect(P(7) | P(23), c.taint, agree, "position-map", "pollard's position map disagrees with the full node's");
                // and the other way round, where the other node does not know every leaf
                bool all = true;
                for (auto& h : s.leaves()) all = all && c.remembered.count(h);
                agree = lib([&] { return b.f->ComparePositionMap(*c.p); });
                expect(P(7) | P(23), c.taint, agree == all, "position-map", "a full node's position map compared with that of a pollard that remembers " + std::to_string(c.remembered.size()) + " of " + std::to_string(s.n()) + " leaves: " + (agree ? "equal" : "unequal"));
                if (c.remembered.empty()) probe("position map compared with an empty one");
                break;
            }
    }
    void ctrim(Client& c, uint32_t style, uint32_t c32)
    {
        Rng r(c32);
        const State& s = st(c.tip);
        std::set<H> pick;
        for (auto& h : pick_live(s, r, style >> 1)) pick.insert(h);
        for (auto& h : c.remembered)
            if (r.chance(1, 3)) pick.insert(h);
        if (pick.empty()) return;
        Req g = genuine_req(s, std::vector<H>(pick.begin(), pick.end()));
        auto at = s.proof_at(g.targets);
        auto lo = held(c, false), hi = held(c, true);
        std::vector<H> np;
        size_t cut = 0;
        if (style & 1) { // drop some of what it holds
            for (size_t i = 0; i < at.size(); i++) {
                if (lo.count(at[i]) && r.chance(2, 3)) cut++;
                else
                    np.push_back(g.proof[i]);
            }
            BatchProof bp = lib([&] { return BatchProof(g.targets, np); });
            cverify(c, bp, g.hashes, ACCEPT, P(8), "trimmed-proof-rejected");
            if (cut) interesting(), probe("trimmed proof");
        } else { // drop something it cannot have
            std::vector<size_t> no;
            for (size_t i = 0; i < at.size(); i++)
                if (!hi.count(at[i])) no.push_back(i);
            if (no.empty()) return;
            std::set<size_t> drop{no[r.below(no.size())]};
            bool also = r.chance(1, 2);
            for (size_t i = 0; i < at.size(); i++) {
                if (drop.count(i)) continue;
                if (also && lo.count(at[i])) continue;
                np.push_back(g.proof[i]);
            }
            BatchProof bp = lib([&] { return BatchProof(g.targets, np); });
            cverify(c, bp, g.hashes, REJECT, P(8), "incomplete-proof-accepted");
            interesting();
            probe("proof lacking a needed hash");
        }
    }
    void cprune(Client& c)
    {
        lib([&] { c.p->Prune(); return 0; });
        c.remembered.clear();
        say("client pruned at %d", c.tip);
        check_client(c, P(2), "state-after-prune");
        const State& s = st(c.tip);
        uint64_t nodes = lib([&] { return c.p->CountNodes(); });
        expect(P(19), c.taint, nodes == s.roots.size(), "too-many-nodes", "after pruning " + std::to_string(nodes) + " nodes are left instead of the roots");
        for (uint64_t i = 0; i < s.n() && i < 40; i++) {
            BatchProof q;
            std::vector<H> one{s.leaves()[i]};
            if (lib([&] { return c.p->Prove(q, one); })) {
                std::string d = proof_diff(q, one, s);
                expect(P(7), c.taint, d.empty(), "wrong-proof-given", "pruned pollard returns a wrong proof: " + d);
            }
        }
        interesting();
    }
    void clocal(Client& c, uint32_t style, uint32_t c32)
    {
        if (c.tip == best || !is_ancestor(c.tip, best)) return;
        int nx = next_towards(c.tip, best);
        const Blk& k = blks[nx];
        const State& s = st(c.tip);
        Rng r(c32);
        bool all = true;
        for (auto& h : k.dels) all = all && c.remembered.count(h);
        if (all && style % 4 != 1) {
            BatchProof p;
            bool ok = lib([&] { return c.p->Prove(p, k.dels); });
            expect(P(6), c.taint, ok, "remembered-not-provable", "pollard cannot prove the leaves a block spends although it remembers them all");
            std::string d = proof_diff(p, k.dels, s);
            expect(P(6) | P(7), c.taint, d.empty(), "remembered-proof-wrong", d);
            cverify(c, p, k.dels, ACCEPT, P(6) | P(8), "own-proof-rejected");
            if (!k.dels.empty()) probe("block applied with the client's own proof"), interesting();
        } else if (style % 4 != 2) { // the block's proof without what the client said it holds
            Req g = genuine_req(s, k.dels);
            auto at = s.proof_at(g.targets);
            auto lo = held(c, false);
            std::vector<H> np;
            for (size_t i = 0; i < at.size(); i++)
                if (!lo.count(at[i])) np.push_back(g.proof[i]);
            BatchProof bp = lib([&] { return BatchProof(g.targets, np); });
            cverify(c, bp, g.hashes, ACCEPT, P(8) | P(3), "trimmed-proof-rejected");
            if (np.size() < at.size()) probe("block applied with a trimmed proof"), interesting();
        } else { // proven piece by piece, with other messages in between
            std::vector<std::vector<H>> piece(2 + r.below(2));
            for (auto& h : k.dels) piece[r.below(piece.size())].push_back(h);
            for (auto& v : piece) {
                if (v.empty()) continue;
                Req g = genuine_req(s, v);
                BatchProof bp = lib([&] { return BatchProof(g.targets, g.proof); });
                cverify(c, bp, g.hashes, ACCEPT, P(3), "genuine-proof-rejected");
                if (r.chance(1, 2)) {
                    std::vector<H> base;
                    Req q = forged(c, 1 + (uint32_t)r.below(3), r, base);
                    BatchProof fp = lib([&] { return BatchProof(q.targets, q.proof); });
                    cverify(c, fp, q.hashes, ANY, 0, "");
                }
            }
            probe("block applied after piecewise proofs");
            interesting();
        }
        capply(c, nx, k.delpos);
    }
    void cbad(Client& c, uint32_t kind, uint32_t c32)
    {
        Rng r(c32);
        const State& s = st(c.tip);
        Snap sn = snap(c, r);
        auto tg = bad_targets(s, kind, r);
        std::vector<Leaf> add;
        if (r.chance(1, 2)) add.emplace_back(new_leaf(), r.chance(1, 2));
        bool ok = metered_request(c.taint, add.size() + tg.size(), [&] { return c.p->Modify(add, tg); });
        say("client bad modify kind %u -> %d", kind % 6, (int)ok);
        expect(P(18), c.taint, !ok, "bad-modify-accepted", "pollard accepts malformed deletions");
        unchanged(c, sn, P(18), "refused-modify-left-traces");
        check_client(c, P(18), "state-after-bad-request");
        c.taint |= P(18);
        interesting();
    }
    void calloc_(Client& c, uint32_t op, uint32_t c32)
    {
        Rng r(c32);
        long k = fault_index(c32);
        bool sticky = c32 & 8;
        const State& s = st(c.tip);
        switch (op % 4) {
        case 0:
        case 1: { // verify, genuine or forged
            std::vector<H> base;
            Req q;
            bool gen = (op >> 2) & 1;
            if (gen) {
                base = pick_live(s, r, op >> 3);
                if (base.empty()) return;
                q = genuine_req(s, base);
            } else
                q = forged(c, 1 + r.below(2), r, base);
            BatchProof bp = lib([&] { return BatchProof(q.targets, q.proof); });
            Snap sn = snap(c, r);
            bool truth = is_true(bp.GetSortedTargets(), q.hashes, s);
            bool threw = false, ok = false;
            try {
                seam::arm_alloc(k, sticky);
                ok = lib([&] { return c.p->Verify(bp, q.hashes); });
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            bool fired = seam::alloc_fired();
            seam::disarm_alloc();
            say("alloc %ld%s in verify (%s): fired %d threw %d ok %d", k, sticky ? "+" : "", gen ? "genuine" : "forged", (int)fired, (int)threw, (int)ok);
            if (!threw) {
                expect(P(4) | P(16), c.taint, !ok || truth, "false-proof-accepted", "pollard accepts hashes that are not live leaves");
                if (gen) expect(P(3) | P(16), c.taint, ok || fired, "genuine-proof-rejected", "pollard rejects a genuine proof");
            }
            if (ok) {
                for (auto& h : q.hashes) c.remembered.insert(h);
            } else
                unchanged(c, sn, fired ? P(16) : P(5), fired ? "alloc-failure-left-traces" : "rejected-proof-left-traces");
            if (!ok) add_ghosts(c, q.hashes);
            if (fired) {
                c.taint |= P(16);
                interesting();
                probe("allocation failure inside a pollard's verify");
            }
            check_client(c, P(16), "state-after-alloc-failure");
            // nothing unproven may have become believable: the same claim, with as little proof as possible
            if (!truth) {
                BatchProof e = lib([&] { return BatchProof(q.targets, std::vector<H>()); });
                cverify(c, e, q.hashes, ANY, 0, "");
                cverify(c, bp, q.hashes, ANY, 0, "");
            }
            if (!base.empty()) {
                Req g = genuine_req(s, base);
                BatchProof b2 = lib([&] { return BatchProof(g.targets, g.proof); });
                cverify(c, b2, g.hashes, ACCEPT, P(3) | (fired ? P(16) : 0), "genuine-proof-rejected");
            }
            check_remembered(c, false);
            break;
        }
        case 2: {
            std::vector<H> want(c.remembered.begin(), c.remembered.end());
            if (want.empty()) return;
            bool threw = false, ok = false;
            {
                BatchProof p;
                Snap sn = snap(c, r);
                try {
                    seam::arm_alloc(k, sticky);
                    ok = lib([&] { return c.p->Prove(p, want); });
                } catch (const std::exception&) {
                    if (!seam::alloc_fired()) throw;
                    threw = true;
                }
                bool fired = seam::alloc_fired();
                seam::disarm_alloc();
                if (ok && !threw) {
                    std::string d = proof_diff(p, want, s);
                    expect(P(6) | P(7) | P(16), c.taint, d.empty(), "remembered-proof-wrong", d);
                } else
                    expect(P(6), c.taint, fired, "remembered-not-provable", "pollard cannot prove what it remembers");
                unchanged(c, sn, P(16), "alloc-failure-left-traces");
                if (fired) interesting();
                ok = lib([&] { return c.p->Prove(p, want); });
                expect(P(16) | P(6), c.taint, ok && proof_diff(p, want, s).empty(), "remembered-not-provable", "after an allocation failure the pollard cannot prove what it remembers");
            }
            say("alloc %ld in client prove threw %d", k, (int)threw);
            break;
        }
        case 3: { // applying a block: the pollard is lost, nothing else may be
            if (c.tip == best || !is_ancestor(c.tip, best)) return;
            int nx = next_towards(c.tip, best);
            Req g;
            if (!blks[nx].dels.empty()) {
                g = genuine_req(s, blks[nx].dels);
                BatchProof bp = lib([&] { return BatchProof(g.targets, g.proof); });
                cverify(c, bp, g.hashes, ACCEPT, P(3), "genuine-block-rejected");
            }
            auto leaves = leaves_of(nx, c.policy);
            bool threw = false, ok = false;
            try {
                seam::arm_alloc(k, sticky);
                ok = lib([&] { return c.p->Modify(leaves, blks[nx].delpos); });
            } catch (const std::exception&) {
                if (!seam::alloc_fired()) throw;
                threw = true;
            }
            bool fired = seam::alloc_fired();
            seam::disarm_alloc();
            say("alloc %ld in client modify fired %d threw %d", k, (int)fired, (int)threw);
            if (ok && !threw) {
                c.tip = nx;
                for (auto& h : blks[nx].dels) c.remembered.erase(h);
                for (auto& l : leaves)
                    if (l.second) c.remembered.insert(l.first);
                check_client(c, P(2), "client-state-after-block");
            } else {
                expect(P(2) | P(3), c.taint, fired, "client-modify-refused", "pollard refuses a verified block");
                probe("pollard lost to memory exhaustion and rebuilt");
                rebuild(c, c.tip, false);
            }
            break;
        }
        }
    }
    bool decode_undo(Client& c, const Bytes& bytes, bool genuine)
    {
        seam::set_alloc_cap(0, 48 * bytes.size() + 16384);
        bool ok = false, threw = false;
        try {
            ok = lib([&] { return c.rxu.Unserialize(bytes); });
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        bool cap = seam::alloc_cap_hit();
        seam::set_alloc_cap(0, 0);
        need(P(15) | P(24), !cap && !threw, "decode-memory", "decoding " + std::to_string(bytes.size()) + " bytes of undo data asks for memory out of proportion");
        if (genuine) need(P(15) | P(9), ok, "genuine-bytes-rejected", "undo data written by Serialize does not decode");
        if (ok) {
            auto be = [&](size_t o) { return (uint64_t(bytes[o]) << 24) | (uint64_t(bytes[o + 1]) << 16) | (uint64_t(bytes[o + 2]) << 8) | bytes[o + 3]; };
            bool wf = bytes.size() >= 8 && bytes.size() == 8 + 36 * be(4);
            need(P(15), wf, "decode-differs", "bytes that are no undo data were decoded");
            uint64_t n = be(4);
            bool eq = c.rxu.GetNumAdds() == be(0) && c.rxu.GetDeletedPositions().size() == n && c.rxu.GetDeletedHashes().size() == n;
            for (uint64_t i = 0; eq && i < n; i++)
                eq = c.rxu.GetDeletedPositions()[i] == be(8 + 4 * i) && !memcmp(c.rxu.GetDeletedHashes()[i].data(), bytes.data() + 8 + 4 * n + 32 * i, 32);
            need(P(15), eq, "decode-differs", "decoded undo data differs from the bytes");
            Bytes back;
            lib([&] { c.rxu.Serialize(back); return 0; });
            need(P(15), back == bytes, "reencode-differs", "encoding the decoded undo data gives other bytes");
        }
        return ok;
    }
    void wire(uint32_t a, uint32_t b, uint32_t c32)
    {
        Rng r(c32);
        Client& c = C[a % C.size()];
        std::vector<int> with;
        for (size_t i = 1; i < blks.size(); i++)
            if (blks[i].have_proof) with.push_back((int)i);
        bool undo = b & 1;
        uint32_t fault = (b >> 1) % 8;
        Bytes bytes;
        if (!with.empty()) {
            const Blk& k = blks[with[r.below(with.size())]];
            bytes = undo ? k.undo : k.proof;
        }
        Bytes orig = bytes;
        if (fault == 7) { // header only, claiming much
            bytes.assign(8, 0);
            for (int i = 0; i < 2; i++) {
                uint64_t o = r.below(2) * 4;
                bytes[o] = (uint8_t)(1 << r.below(8));
                if (r.chance(1, 3)) bytes[o + 3] = (uint8_t)r.below(4);
            }
            if (undo && r.chance(1, 2)) { // sizes chosen so that a 32-bit product wraps
                uint32_t nt = (uint32_t)(((uint64_t(r.below(36)) << 32) / 36) & ~uint32_t(0));
                if (r.chance(1, 2)) nt = 0x40000000u * (1 + (uint32_t)r.below(3));
                uint32_t wrap = 36u * nt;
                if (wrap <= 256) bytes.resize(8 + wrap);
                for (int i = 0; i < 4; i++) bytes[4 + i] = (uint8_t)(nt >> (24 - 8 * i));
            }
        } else if (fault)
            corrupt(bytes, fault, r);
        if (!undo) {
            decode(c, bytes, !orig.empty() && bytes == orig);
        } else {
            bool ok = decode_undo(c, bytes, !orig.empty() && bytes == orig);
            say("undo bytes fault %u -> %d", fault, (int)ok);
        }
        if (fault) interesting();
    }

    // -------- pollards of forests far too large to hold anywhere: only the surroundings of some leaves are known
    struct GNode {
        std::unique_ptr<Pollard> p;
        std::set<H> remembered;
        uint32_t taint = 0;
    };
    struct Giant {
        ref::Sparse s;
        std::map<uint64_t, H> leaves; // the known ones
        std::map<H, uint64_t> pos;
        std::vector<H> dead;
        GNode g[2];
        uint32_t taint = 0;
    };
    std::unique_ptr<Giant> G;
    void gindex()
    {
        G->leaves.clear();
        G->pos.clear();
        G->s.leaves(G->leaves);
        for (auto& [p, h] : G->leaves) G->pos[h] = p;
    }
    ref::Sparse::TP gbuild(unsigned row, uint64_t start, const std::vector<uint64_t>& known, size_t a, size_t b, uint64_t salt)
    {
        if (a == b || row == 0) {
            uint64_t in[3] = {salt, row, start};
            return ref::Sparse::leaf(ref::sha512_256((const uint8_t*)in, sizeof in), row);
        }
        uint64_t mid = start + (uint64_t(1) << (row - 1));
        size_t m = (size_t)(std::lower_bound(known.begin() + (long)a, known.begin() + (long)b, mid) - known.begin());
        auto l = gbuild(row - 1, start, known, a, m, salt);
        auto r = gbuild(row - 1, mid, known, m, b, salt);
        return ref::Sparse::make(l, r);
    }
    void gnew(Rng& r)
    {
        if (G) lib([&] { G->g[0].p.reset(); G->g[1].p.reset(); return 0; });
        G = std::make_unique<Giant>();
        unsigned rows = 20 + (unsigned)r.below(43);
        if (r.chance(1, 3)) rows = 30 + (unsigned)r.below(5);
        uint64_t top = uint64_t(1) << rows, n = 0;
        switch (r.below(6)) {
        case 0:
        case 1: n = top + (r.next() & (top - 1)); break;
        case 2: n = top + r.below(300); break;
        case 3: n = top - 1 - r.below(300); break;
        case 4: n = top + (top >> (1 + r.below(rows))) + r.below(40); break;
        case 5: n = top; break;
        }
        std::set<uint64_t> known;
        auto put = [&](uint64_t p) {
            if (p < n) known.insert(p);
        };
        for (uint64_t k = 2 + r.below(6); k; k--) {
            uint64_t p = r.next() % n;
            switch (r.below(5)) {
            case 0: p = n - 1 - r.below(std::min<uint64_t>(n, 70)); break;
            case 1: p = (uint64_t(1) << r.below(rows + 1)) - r.below(2); break;
            case 2: p = r.below(20); break;
            default: break;
            }
            put(p);
            while (r.chance(1, 2)) put(p ^ (r.chance(1, 2) ? 1 + r.below(3) : uint64_t(1) << r.below(rows)));
        }
        if (r.chance(1, 25)) { // thousands of neighbours, so that one block deletes very many
            uint64_t len = std::min<uint64_t>(n, 200 + r.below(r.chance(1, 4) ? 6000 : 1000)), from = r.next() % (n - len + 1);
            if (r.chance(1, 3)) from = n - len;
            if (r.chance(1, 3)) from &= ~uint64_t(1023);
            uint64_t sparse = r.below(3);
            for (uint64_t i = 0; i < len; i++)
                if (!sparse || r.chance(1, 1 + sparse)) put(from + i);
            probe("giant forest with hundreds or thousands of known leaves");
        }
        std::vector<uint64_t> kv(known.begin(), known.end());
        uint64_t off = 0, salt = r.next();
        size_t a = 0;
        G->s.n = n;
        for (int R = 63; R >= 0; R--)
            if ((n >> R) & 1) {
                uint64_t end = off + (uint64_t(1) << R);
                size_t b = a;
                while (b < kv.size() && kv[b] < end) b++;
                G->s.roots[(unsigned)R] = gbuild((unsigned)R, off, kv, a, b, salt);
                a = b;
                off = end;
            }
        gindex();
        auto roots = G->s.root_hashes();
        for (auto& g : G->g) g.p = lib([&] { return std::make_unique<Pollard>(roots, n); });
        say("giant forest of %llu leaves, %zu known", (unsigned long long)n, G->leaves.size());
        for (auto& g : G->g) gcheck(g, P(2), "state-of-giant");
        interesting();
    }
    std::string gproof_diff(const BatchProof& p, const std::vector<H>& hashes)
    {
        std::vector<uint64_t> pos;
        for (auto& h : hashes) {
            auto it = G->pos.find(h);
            if (it == G->pos.end()) return "proof for a hash that is not in the set";
            pos.push_back(it->second);
        }
        if (p.GetTargets() != pos) return "proof names wrong positions";
        std::sort(pos.begin(), pos.end());
        if (p.GetSortedTargets() != pos) return "sorted positions of the proof are wrong";
        if (p.GetHashes() != G->s.proof(pos)) return "proof hashes are wrong for the positions claimed";
        return "";
    }
    std::set<std::pair<unsigned, uint64_t>> gheld(const GNode& g, bool upper)
    {
        std::set<std::pair<unsigned, uint64_t>> nodes;
        for (auto& [r, t] : G->s.roots) nodes.insert({r, (G->s.n >> r) - 1});
        for (auto& h : g.remembered) {
            uint64_t i = G->pos.at(h);
            for (unsigned r = 0; !G->s.is_root(r, i); r++, i >>= 1) {
                if (upper) nodes.insert({r, i});
                nodes.insert({r, i ^ 1});
            }
        }
        return nodes;
    }
    struct GSnap {
        std::vector<H> roots;
        uint64_t n, cached, nodes;
    };
    GSnap gsnap(GNode& g)
    {
        GSnap s;
        s.roots = some_roots(*g.p);
        lib([&] { s.n = g.p->NumLeaves(); s.cached = g.p->NumCachedLeaves(); s.nodes = g.p->CountNodes(); return 0; });
        return s;
    }
    void gcheck(GNode& g, uint32_t mask, const char* cls)
    {
        GSnap s = gsnap(g);
        expect(mask, g.taint, s.n == G->s.n, cls, "leaf count " + std::to_string(s.n) + " instead of " + std::to_string(G->s.n));
        expect(mask, g.taint, s.roots == G->s.root_hashes(), cls, "roots differ at " + std::to_string(s.n) + " leaves");
        expect(P(6), g.taint, s.cached == g.remembered.size(), "remembered-count", "pollard remembers " + std::to_string(s.cached) + " leaves instead of " + std::to_string(g.remembered.size()));
        size_t bound = gheld(g, true).size();
        expect(P(19), g.taint, s.nodes <= bound, "too-many-nodes", "pollard holds " + std::to_string(s.nodes) + " nodes; its roots and the branches of its remembered leaves are " + std::to_string(bound));
        size_t skip = g.remembered.size() / 100, k = 0;
        for (auto& h : g.remembered) {
            if (skip && (k++ + loghash) % skip) continue; // (of thousands, some)
            BatchProof p;
            bool ok = lib([&] { return g.p->Prove(p, {h}); });
            expect(P(6), g.taint, ok, "remembered-not-provable", "pollard cannot prove leaf " + hex(h) + " it remembers");
            std::string d = gproof_diff(p, {h});
            expect(P(6) | P(7), g.taint, d.empty(), "remembered-proof-wrong", d);
        }
        for (auto& h : G->dead) {
            if (G->pos.count(h)) continue;
            BatchProof p;
            expect(P(7), g.taint, !lib([&] { return g.p->Prove(p, {h}); }), "absent-provable", "pollard proves a hash that is not there");
        }
        uint64_t x = hash2(G->s.n, s.nodes);
        reached(hash2(x, s.cached));
    }
    void gunchanged(GNode& g, const GSnap& s, uint32_t mask, const char* cls)
    {
        GSnap m = gsnap(g);
        expect(mask, g.taint, m.n == s.n && m.roots == s.roots, cls, "roots or leaf count changed");
        expect(mask, g.taint, m.cached == s.cached, cls, "remembered leaves went from " + std::to_string(s.cached) + " to " + std::to_string(m.cached));
        expect(mask, g.taint, m.nodes == s.nodes, cls, "nodes went from " + std::to_string(s.nodes) + " to " + std::to_string(m.nodes));
        gcheck(g, mask, cls);
    }
    Req greq(const std::vector<uint64_t>& pos)
    {
        Req q;
        q.targets = pos;
        q.proof = G->s.proof(pos);
        for (auto p : pos) q.hashes.push_back(G->leaves.at(p));
        return q;
    }
    std::vector<uint64_t> gpick(Rng& r)
    {
        std::vector<uint64_t> v;
        for (auto& [p, h] : G->leaves)
            if (r.chance(1, 3)) v.push_back(p);
        if (v.empty() && !G->leaves.empty()) {
            auto it = G->leaves.begin();
            std::advance(it, (long)r.below(G->leaves.size()));
            v.push_back(it->first);
        }
        return v;
    }
    bool gverify(GNode& g, const Req& q, Must must, uint32_t mask, const char* cls)
    {
        GSnap s = gsnap(g);
        BatchProof bp = lib([&] { return BatchProof(q.targets, q.proof); });
        bool fits = true;
        for (auto p : q.targets) fits = fits && p >> 32 == 0;
        if (fits && (loghash & 1)) { // as it would come over the wire
            Bytes bytes;
            BatchProof w;
            bool ok = lib([&] { bp.Serialize(bytes); return w.Unserialize(bytes); });
            need(P(15) | P(3), ok, "genuine-bytes-rejected", "bytes written by Serialize do not decode");
            std::string d = decode_diff(w, bytes);
            if (d.empty() && (w.GetTargets() != q.targets || w.GetHashes() != q.proof)) d = "encoded proof is not the one that was to be encoded";
            need(P(15), d.empty(), "decode-differs", d);
            lib([&] { bp = w; return 0; });
        }
        bool truth = q.targets.size() == q.hashes.size();
        std::vector<uint64_t> so = q.targets;
        std::sort(so.begin(), so.end());
        for (size_t i = 0; truth && i < so.size(); i++) {
            auto it = G->leaves.find(so[i]);
            truth = it != G->leaves.end() && it->second == q.hashes[i] && (!i || so[i - 1] < so[i]);
        }
        sane(bp, G->s.n, 0);
        bool ok = metered(*g.p, g.taint, bp, q.hashes);
        say("giant verify %zu targets, %zu hashes -> %d", q.targets.size(), q.proof.size(), (int)ok);
        expect(P(4), g.taint, !ok || truth, "false-proof-accepted", "pollard of " + std::to_string(s.n) + " leaves accepts hashes that are not the live leaves at the claimed positions");
        if (must == ACCEPT) expect(mask, g.taint, ok, cls, "pollard of " + std::to_string(s.n) + " leaves rejects a genuine proof");
        if (must == REJECT) expect(mask, g.taint, !ok, cls, "pollard accepts a proof it must reject");
        if (ok) {
            for (auto& h : q.hashes) g.remembered.insert(h);
        } else {
            gunchanged(g, s, P(5), "rejected-proof-left-traces");
            for (auto& h : q.hashes)
                if (!G->pos.count(h) && G->dead.size() < 24) G->dead.push_back(h);
            g.taint |= P(5);
        }
        gcheck(g, P(5) | P(6), "state-after-verify");
        return ok;
    }
    void giant(uint32_t a, uint32_t b, uint32_t c32)
    {
        Rng r(c32);
        if (!G || a % 9 == 0) {
            gnew(r);
            if (a % 9 == 0) return;
        }
        GNode& g = G->g[b & 1];
        switch (a % 9) {
        case 1: gverify(g, greq(gpick(r)), ACCEPT, P(3), "genuine-proof-rejected"); break;
        case 2:
        case 3: { // forged
            Req q = greq(gpick(r)), base = q;
            for (uint64_t k = 1 + r.below(2); k; k--) {
                auto junk_or = [&]() -> H {
                    if (r.chance(1, 2) && !G->leaves.empty()) {
                        auto it = G->leaves.begin();
                        std::advance(it, (long)r.below(G->leaves.size()));
                        return it->second;
                    }
                    return junk(r);
                };
                switch (r.below(11)) {
                case 10: { // any positions at all
                    q = Req();
                    for (uint64_t m = r.below(6); m; m--) {
                        uint64_t p = r.next() >> r.below(64);
                        switch (r.below(4)) {
                        case 0: p = G->s.n + r.below(3) - 1; break;
                        case 1: p = (uint64_t(1) << r.below(64)) - r.below(2); break;
                        case 2: p = ~r.below(3); break;
                        }
                        q.targets.push_back(p);
                        q.hashes.push_back(junk_or());
                    }
                    std::sort(q.targets.begin(), q.targets.end());
                    for (uint64_t m = r.below(r.chance(1, 2) ? 8 : 200); m; m--) q.proof.push_back(junk_or());
                    break;
                }
                case 0: if (!q.hashes.empty()) q.hashes[r.below(q.hashes.size())] = junk_or(); break;
                case 1: if (!q.hashes.empty()) q.hashes[r.below(q.hashes.size())][r.below(32)] ^= (uint8_t)(1 << r.below(8)); break;
                case 2: if (!q.targets.empty()) q.targets[r.below(q.targets.size())] ^= uint64_t(1) << r.below(64); break;
                case 3: if (!q.targets.empty()) q.targets[r.below(q.targets.size())] += uint64_t(1) << r.below(64); break;
                case 4: if (!q.targets.empty()) q.targets[r.below(q.targets.size())] = G->s.n + r.below(3); break;
                case 5: if (!q.proof.empty()) q.proof[r.below(q.proof.size())] = junk_or(); break;
                case 6: if (!q.proof.empty()) q.proof.erase(q.proof.begin() + (long)r.below(q.proof.size())); break;
                case 7: q.proof.insert(q.proof.begin() + (long)r.below(q.proof.size() + 1), junk_or()); break;
                case 8: if (q.proof.size() > 1) std::swap(q.proof[r.below(q.proof.size())], q.proof[r.below(q.proof.size())]); break;
                case 9: if (q.hashes.size() > 1) std::swap(q.hashes[r.below(q.hashes.size())], q.hashes[r.below(q.hashes.size())]); break;
                }
            }
            gverify(g, q, ANY, 0, "");
            probe("forged proof for a giant forest");
            if (r.chance(1, 2)) gverify(g, base, ACCEPT, P(3), "genuine-proof-rejected");
            break;
        }
        case 4:
        case 5: { // a block; both pollards apply it
            auto pick = gpick(r);
            Req q = greq(pick);
            std::vector<H> adds;
            for (uint64_t k = r.below(r.chance(1, 20) ? 300 : 6); k; k--) adds.push_back(new_leaf());
            for (auto& x : G->g) gverify(x, q, ACCEPT, P(3), "genuine-block-rejected");
            G->s.remove(pick);
            for (auto& h : adds) G->s.add(h);
            gindex();
            for (auto& h : q.hashes)
                if (G->dead.size() < 24) G->dead.push_back(h);
            int w = 0;
            for (auto& x : G->g) {
                std::vector<Leaf> lv;
                for (auto& h : adds) lv.emplace_back(h, w ? (h[31] & 1) : ((b >> 1) & 1));
                w++;
                bool ok = lib([&] { return x.p->Modify(lv, pick); });
                expect(P(2) | P(3), x.taint, ok, "client-modify-refused", "pollard refuses a verified block");
                for (auto& h : q.hashes) x.remembered.erase(h);
                for (auto& l : lv)
                    if (l.second) x.remembered.insert(l.first);
            }
            say("giant block -%zu +%zu -> %llu leaves", pick.size(), adds.size(), (unsigned long long)G->s.n);
            expect(P(1), G->g[0].taint | G->g[1].taint, some_roots(*G->g[0].p) == some_roots(*G->g[1].p), "replicas-disagree", "two pollards with the same history report different roots");
            for (auto& x : G->g) gcheck(x, P(2), "client-state-after-block");
            probe("block applied to a giant forest");
            break;
        }
        case 6: { // everything it remembers, in one proof, convinces the other
            std::vector<H> want;
            for (auto& h : g.remembered)
                if (r.chance(3, 4)) want.push_back(h);
            shuffle(want, r);
            if (want.empty()) return;
            BatchProof p;
            bool ok = lib([&] { return g.p->Prove(p, want); });
            expect(P(6), g.taint, ok, "remembered-not-provable", "pollard cannot prove leaves it remembers");
            std::string d = gproof_diff(p, want);
            expect(P(6) | P(7), g.taint, d.empty(), "remembered-proof-wrong", d);
            BatchProof again = used_proof(State(), r);
            ok = lib([&] { return g.p->Prove(again, want); });
            expect(P(25), g.taint, ok && same_proof(p, again), "used-object", "a proof put into a used object differs from one put into a new one");
            Req q;
            q.targets = p.GetTargets();
            q.proof = p.GetHashes();
            q.hashes = want;
            std::sort(q.hashes.begin(), q.hashes.end(), [&](const H& x, const H& y) { return G->pos.at(x) < G->pos.at(y); });
            gverify(G->g[1 - (b & 1)], q, ACCEPT, P(3) | P(6), "peer-rejects-proof");
            auto f = lib([&] { return std::make_unique<Pollard>(G->s.root_hashes(), G->s.n); });
            expect(P(6) | P(3), g.taint, lib([&] { return f->Verify(p, q.hashes); }), "peer-rejects-proof", "a fresh pollard rejects the proof");
            lib([&] { f.reset(); return 0; });
            break;
        }
        case 7: { // trimmed
            auto pick = gpick(r);
            Req q = greq(pick);
            auto at = G->s.proof_at(pick);
            auto lo = gheld(g, false), hi = gheld(g, true);
            std::vector<H> np;
            if (b & 2) {
                for (size_t i = 0; i < at.size(); i++)
                    if (!lo.count(at[i]) || r.chance(1, 3)) np.push_back(q.proof[i]);
                q.proof = np;
                gverify(g, q, ACCEPT, P(8), "trimmed-proof-rejected");
            } else {
                std::vector<size_t> no;
                for (size_t i = 0; i < at.size(); i++)
                    if (!hi.count(at[i])) no.push_back(i);
                if (no.empty()) return;
                size_t drop = no[r.below(no.size())];
                for (size_t i = 0; i < at.size(); i++)
                    if (i != drop) np.push_back(q.proof[i]);
                q.proof = np;
                gverify(g, q, REJECT, P(8), "incomplete-proof-accepted");
            }
            break;
        }
        case 8:
            if (b & 4) { // prune
                lib([&] { g.p->Prune(); return 0; });
                g.remembered.clear();
                gcheck(g, P(2), "state-after-prune");
                say("giant pruned");
            } else { // malformed deletions
                GSnap s = gsnap(g);
                std::vector<uint64_t> tg = gpick(r);
                switch (r.below(4)) {
                case 0: tg.push_back(G->s.n + r.below(3)); break;
                case 1: tg.push_back(tg.empty() ? G->s.n : tg.back()); break;
                case 2: tg.push_back((uint64_t(1) << 63) + r.below(3)); break;
                case 3:
                    tg.insert(tg.begin(), G->s.n - 1);
                    if (tg.size() < 2) tg.push_back(0);
                    break;
                }
                bool ok = lib([&] { return g.p->Modify({}, tg); });
                expect(P(18), g.taint, !ok, "bad-modify-accepted", "pollard accepts malformed deletions");
                gunchanged(g, s, P(18), "refused-modify-left-traces");
                say("giant bad modify");
                g.taint |= P(18);
            }
            break;
        }
        interesting();
    }

    // -------- messages and requests far larger than any genuine one of this forest
    static std::vector<uint64_t> many(uint64_t n, uint64_t first, uint32_t pattern, Rng& r)
    {
        std::vector<uint64_t> v(n);
        uint64_t wide = ~uint64_t(0) >> r.below(40);
        switch (pattern % 6) {
        case 0: for (uint64_t i = 0; i < n; i++) v[i] = first + i; break;
        case 1: for (uint64_t i = 0; i < n; i++) v[i] = first + n - 1 - i; break;
        case 2: for (uint64_t i = 0; i < n; i++) v[i] = first; break;
        case 3: // the last one twice
            for (uint64_t i = 0; i < n; i++) v[i] = first + i;
            v[n - 1] = v[n - 2];
            break;
        case 4: for (auto& x : v) x = r.next() & wide; break;
        case 5:
            for (auto& x : v) x = r.next() & wide;
            std::sort(v.begin(), v.end());
            break;
        }
        return v;
    }
    // More than 2 GiB. Takes gigabytes of memory, so only the corpus asks for it.
    void huge_message(bool undo)
    {
        uint64_t n = undo ? 59652325 : 67108865; // the first that are encoded in 2^31 bytes or more
        auto sum = [](const uint8_t* p, size_t k) {
            uint64_t h = k;
            for (; k >= 8; k -= 8, p += 8) {
                uint64_t x;
                memcpy(&x, p, 8);
                h = (h ^ x) * 0x9e3779b97f4a7c15ull;
            }
            while (k--) h = h * 31 + *p++;
            return h;
        };
        Bytes bytes(8 + (undo ? 36 : 32) * n);
        for (size_t i = 0; i < bytes.size(); i += 4093) bytes[i] = (uint8_t)(i >> 12);
        for (int i = 0; i < 8; i++) bytes[(size_t)i] = i < 4 ? 0 : (uint8_t)(n >> (24 - 8 * (i - 4)));
        uint64_t before = sum(bytes.data(), bytes.size());
        BatchProof p;
        UndoBatch u;
        bool ok = lib([&] { return undo ? u.Unserialize(bytes) : p.Unserialize(bytes); });
        need(P(15) | P(24), ok, "genuine-bytes-rejected", "a message of more than 2 GiB does not decode");
        const auto& hs = undo ? u.GetDeletedHashes() : p.GetHashes();
        size_t at = 8 + (undo ? 4 * n : 0);
        bool eq = hs.size() == n && !memcmp(hs.data(), bytes.data() + at, 32 * n) && (!undo || u.GetDeletedPositions().size() == n);
        need(P(15), eq, "decode-differs", "a decoded message of more than 2 GiB differs from the bytes");
        lib([&] { undo ? u.Serialize(bytes) : p.Serialize(bytes); return 0; });
        need(P(15), sum(bytes.data(), bytes.size()) == before, "reencode-differs", "encoding a decoded message of more than 2 GiB gives other bytes");
        say("flood: more than 2 GiB of %s", undo ? "undo data" : "a proof");
        interesting();
    }
    void flood(Bridge& b, Client& c, uint32_t a, uint32_t pattern, uint32_t c32)
    {
        if (pattern >= 1000) return huge_message(pattern & 1);
        Rng r(c32);
        uint64_t n = 2000 + r.below(6000);
        if (r.chance(1, 5)) n = 65530 + r.below(r.chance(1, 2) ? 12 : 60000);
        else if (r.chance(1, 40)) n = 300000;
        auto hashes = [&](uint64_t k) {
            std::vector<H> v(k);
            for (auto& h : v) h = junk(r);
            return v;
        };
        const State& s = st(b.tip);
        uint64_t first = pattern & 64 ? 0 : r.below(st(c.tip).n() + 2);
        switch (a % 9) {
        case 0:
        case 1: { // over the wire
            bool undo = a % 9 == 1;
            auto v = many(n, first, pattern, r);
            uint64_t m = undo || r.chance(1, 2) ? n : r.below(40);
            if (!undo && r.chance(1, 4)) {
                m = n;
                v.resize(r.below(3));
            }
            Bytes bytes(8 + 4 * v.size() + 32 * m);
            auto put = [&](size_t o, uint64_t x) {
                for (int i = 0; i < 4; i++) bytes[o + i] = (uint8_t)(x >> (24 - 8 * i));
            };
            put(0, undo ? r.below(1000) : v.size());
            put(4, m);
            for (size_t i = 0; i < v.size(); i++) put(8 + 4 * i, v[i]);
            uint64_t x = r.next();
            for (size_t i = 8 + 4 * v.size(); i < bytes.size(); i++) bytes[i] = (uint8_t)((x += 0x9e3779b97f4a7c15ull) >> 56);
            bool whole = true;
            if (r.chance(1, 3)) {
                whole = false;
                if (r.chance(1, 2)) bytes.resize(bytes.size() - 1 - r.below(40));
                else bytes.push_back(0);
            }
            Work work{*this, 0, bytes.size() / 4, 0, "decoding"};
            bool ok = undo ? decode_undo(c, bytes, whole) : decode(c, bytes, whole);
            work.done();
            say("flood: %zu bytes of %s -> %d", bytes.size(), undo ? "undo data" : "a proof", (int)ok);
            break;
        }
        case 2: { // full node
            auto v = many(n, pattern & 64 ? 0 : r.below(s.n() + 2), pattern, r);
            auto ph = hashes(r.chance(1, 2) ? r.below(40) : n), hs = hashes(r.chance(3, 4) ? n : r.below(3));
            if (r.chance(1, 4)) v.resize(r.below(3));
            BatchProof bp = lib([&] { return BatchProof(v, ph); });
            bool ok = metered(*b.f, b.taint, bp, hs);
            say("flood: verify %zu targets, %zu hashes of %zu leaves -> %d", v.size(), ph.size(), hs.size(), (int)ok);
            if (!v.empty() || !hs.empty()) expect(P(20), b.taint, !ok, "false-proof-accepted", "full node accepts " + std::to_string(v.size()) + " targets with made-up hashes");
            check_forest(b, P(20), "verify-changed-forest");
            break;
        }
        case 3: { // pollard
            auto v = many(n, first, pattern, r);
            auto ph = hashes(r.chance(1, 2) ? r.below(40) : n), hs = hashes(r.chance(3, 4) ? n : r.below(3));
            if (r.chance(1, 4)) v.resize(r.below(3));
            BatchProof bp = lib([&] { return BatchProof(v, ph); });
            cverify(c, bp, hs, v.empty() && hs.empty() ? ANY : REJECT, P(4), "false-proof-accepted");
            break;
        }
        case 4: { // full node, deletions; there are fewer leaves than that, or the same leaf is named again
            auto v = many(n, pattern & 64 ? 0 : r.below(s.n() + 2), pattern, r);
            std::vector<Leaf> add;
            if (r.chance(1, 2)) add.emplace_back(new_leaf(), false);
            if (s.n() >= n) v.push_back(s.n());
            UndoBatch u;
            bool ok = metered_request(b.taint, add.size() + v.size(), [&] { return b.f->Modify(u, add, v); });
            say("flood: delete %zu leaves -> %d", v.size(), (int)ok);
            expect(P(18), b.taint, !ok, "bad-modify-accepted", "full node accepts malformed deletions");
            b.taint |= P(18);
            check_forest(b, P(18), "state-after-bad-request");
            break;
        }
        case 5: { // full node, undo data
            auto v = many(n, pattern & 64 ? 0 : r.below(s.n() + 2), pattern, r);
            auto hs = hashes(n);
            if (pattern & 32) hs[n - 1] = hs[r.below(n - 1)];
            uint64_t adds = r.below(s.n() + 3);
            v.push_back(s.n() + n + 5 + r.below(10));
            hs.push_back(junk(r));
            UndoBatch u = lib([&] { return UndoBatch(adds, v, hs); });
            bool ok = metered_request(b.taint, 2 * v.size(), [&] { return b.f->Undo(u); });
            say("flood: undo %zu deletions -> %d", v.size(), (int)ok);
            expect(P(18), b.taint, !ok, "bad-undo-accepted", "full node accepts undo data that cannot belong to its state");
            b.taint |= P(18);
            check_forest(b, P(18), "state-after-bad-request");
            break;
        }
        case 6: { // pollard, deletions
            const State& m = st(c.tip);
            Snap sn = snap(c, r);
            auto v = many(n, first, pattern, r);
            if (m.n() >= n) v.push_back(m.n());
            bool ok = metered_request(c.taint, v.size(), [&] { return c.p->Modify({}, v); });
            say("flood: client deletes %zu leaves -> %d", v.size(), (int)ok);
            expect(P(18), c.taint, !ok, "bad-modify-accepted", "pollard accepts malformed deletions");
            unchanged(c, sn, P(18), "refused-modify-left-traces");
            c.taint |= P(18);
            break;
        }
        default: { // a pollard that has that many leaves
            if (!G || r.chance(1, 4)) gnew(r);
            in_giant = true;
            GNode& g = G->g[r.below(2)];
            uint64_t at = r.next() % G->s.n;
            if (G->s.n >= n && r.chance(1, 2)) at = r.below(G->s.n - n + 1);
            Req q;
            q.targets = many(n, at, pattern, r);
            if (a % 9 == 7) {
                q.proof = hashes(r.chance(1, 2) ? r.below(100) : n);
                q.hashes = hashes(n);
                gverify(g, q, REJECT, P(4), "false-proof-accepted");
            } else {
                GSnap sn = gsnap(g);
                if (r.chance(1, 2)) q.targets.push_back(q.targets.back());
                else q.targets.push_back(G->s.n);
                bool ok = metered_request(g.taint, n, [&] { return g.p->Modify({}, q.targets); });
                say("flood: giant deletes %zu leaves -> %d", q.targets.size(), (int)ok);
                expect(P(18), g.taint, !ok, "bad-modify-accepted", "pollard accepts malformed deletions");
                gunchanged(g, sn, P(18), "refused-modify-left-traces");
                g.taint |= P(18);
            }
            in_giant = false;
        }
        }
        probe("flood of thousands of items");
        interesting();
    }

    // -------- running
    void init()
    {
        Blk g;
        g.st = std::make_shared<State>();
        blks.push_back(g);
        B.resize(std::max<uint32_t>(1, t.cfg.nb));
        C.resize(std::max<uint32_t>(1, t.cfg.nc));
        for (size_t i = 0; i < B.size(); i++) {
            B[i].file = (t.cfg.files >> i) & 1;
            if (B[i].file) {
                B[i].path = place("forest" + std::to_string(i));
                ::unlink(B[i].path.c_str());
                ::unlink((B[i].path + ".tmp").c_str());
                std::string err;
                B[i].f = open(B[i].path, &err);
                need(P(10) | P(13), B[i].f != nullptr, "create-failed", err);
                ack(B[i], 0);
            } else
                B[i].f = fresh_memory();
        }
        for (size_t i = 0; i < C.size(); i++) {
            C[i].p = lib([&] { return std::make_unique<Pollard>(uint64_t(0)); });
            C[i].policy = (t.cfg.policy >> (2 * i)) & 3;
        }
    }
    void step(const Step& s)
    {
        Bridge& b = B[s.a % B.size()];
        Client& c = C[s.a % C.size()];
        Rng r(s.c);
        switch (s.kind) {
        case MINE: best = mine(best, s.a, s.b, r); break;
        case FORK: {
            int base = best;
            for (uint32_t d = 1 + s.a % 4; d && base; d--) base = blks[base].parent;
            int want = blks[best].height + 1;
            int x = base;
            while (blks[x].height < want) {
                static const uint32_t styles[] = {0, 1, 2, 4, 5, 6, 7, 8};
                x = mine(x, styles[r.below(8)], (uint32_t)r.below(t.cfg.maxadd + 1), r);
            }
            best = x;
            probe("fork overtook the active chain");
            break;
        }
        case BSTEP: bstep(b, s.b); break;
        case BRUN:
            for (int i = 0; i < 12 && bstep(b, s.b + i); i++) {}
            break;
        case BPROVE: bprove(b, s.b, s.c); break;
        case BVERIFY: bverify(b, s.b, s.c); break;
        case BBAD: bbad(b, s.b, s.c); break;
        case BCOMMIT: bcommit(b); break;
        case BREOPEN: breopen(b, s.c); break;
        case BCRASH: bcrash(b, s.b, s.c); break;
        case BNEWCRASH: bnewcrash(s.c); break;
        case BDISKERR: bdiskerr(b, s.b, s.c); break;
        case BREADERR: breaderr(b, s.b, s.c); break;
        case BDAMAGE: bdamage(b, s.b, s.c); break;
        case BALLOC: balloc(b, s.b, s.c); break;
        case BQALLOC: bqalloc(b, s.b, s.c); break;
        case SEND: send((int)(s.a % C.size())); break;
        case DELIVER: deliver(s.a, s.b % 16, s.c); break;
        case SYNC: sync(s.a, s.b, s.c); break;
        case CQUERY: cquery(c, s.b, s.c); break;
        case CATTACK: cattack(c, s.b, s.c); break;
        case CPROVE: cprove(c, s.b, s.c); break;
        case CTRIM: ctrim(c, s.b, s.c); break;
        case CPRUNE: cprune(c); break;
        case CREBUILD: rebuild(c, c.tip); break;
        case CLOCAL: clocal(c, s.b, s.c); break;
        case CBAD: cbad(c, s.b, s.c); break;
        case CALLOC: calloc_(c, s.b, s.c); break;
        case WIRE: wire(s.a, s.b, s.c); break;
        case GIANT:
            in_giant = true;
            giant(s.a, s.b, s.c);
            in_giant = false;
            break;
        case BCOMPARE: bcompare(b, s.b, s.c); break;
        case REUSE: reuse(b, c, s.b, s.c); break;
        case PAR: together(s.a, s.b, s.c); break;
        case FLOOD: flood(b, c, (s.c >> 20) % 9, s.b, s.c); break;
        }
    }
    void agreement()
    {
        // any two nodes with the same history report the same commitment
        std::map<int, std::pair<std::vector<H>, uint64_t>> seen;
        auto look = [&](const utreexo::Accumulator& a, int tip, uint32_t taint) {
            std::vector<H> roots;
            uint64_t n = lib([&] { a.Roots(roots); return a.NumLeaves(); });
            std::vector<H> copy(roots.begin(), roots.end());
            auto it = seen.find(tip);
            if (it == seen.end()) seen[tip] = {copy, n};
            else
                expect(P(1), taint, it->second.first == copy && it->second.second == n, "replicas-disagree", "two nodes at block " + std::to_string(tip) + " report different roots");
        };
        for (auto& b : B)
            if (b.f) look(*b.f, b.tip, b.taint);
        for (auto& c : C)
            if (c.p) look(*c.p, c.tip, c.taint);
    }
    void heal()
    {
        seam::thaw();
        for (auto& b : B) {
            int f = fork_point(b.tip, best);
            int need = blks[b.tip].height - blks[f].height + blks[best].height - blks[f].height;
            int used = 0;
            while (bstep(b, used & 1)) {
                used++;
                expect(P(3), b.taint, used <= need, "no-progress", "full node does not reach the tip");
            }
            expect(P(3), b.taint, b.tip == best && used == need, "no-progress", "full node needed another number of steps");
        }
        net.clear();
        for (size_t i = 0; i < C.size(); i++) {
            Client& c = C[i];
            int f = fork_point(c.tip, best);
            int need = blks[best].height - blks[f].height, used = 0;
            while (c.tip != best) {
                if (!send((int)i)) break;
                if (net.empty()) continue; // reorganised exactly onto the tip
                Msg m = net.back();
                net.pop_back();
                hand_over(m, 0, 0);
                used++;
                expect(P(3), c.taint, used <= need, "no-progress", "pollard does not reach the tip");
            }
            expect(P(3), c.taint, c.tip == best, "no-progress", "pollard does not reach the tip");
            check_remembered(c, true);
        }
        agreement();
        for (auto& b : B) {
            Rng r(7);
            auto want = pick_live(st(b.tip), r, 2);
            if (!want.empty()) prove_check(b, want, P(2), "bridge-proof");
        }
        // once everything a pollard remembers is deleted only roots are left
        if (t.cfg.heal == 2) {
            Rng r(t.seed);
            best = mine(best, 3, 3, r);
            for (auto& b : B) bstep(b, 0);
            for (size_t i = 0; i < C.size(); i++) {
                send((int)i);
                if (net.empty()) continue;
                Msg m = net.back();
                net.pop_back();
                hand_over(m, 0, 0);
            }
            agreement();
        }
        for (auto& b : B)
            if (b.file) breopen(b, 0);
        say("healed");
    }
    void run()
    {
        init();
        int idx = 0;
        for (auto& s : t.steps) {
            if (log) fprintf(log, "%3d %s %u %u %u\n", idx, kind_name[s.kind], s.a, s.b, s.c);
            uint64_t before = loghash;
            stats.steps++;
            stats.kinds[s.kind]++;
            idx++;
            step(s);
            if (loghash == before) stats.noop++;
            agreement();
        }
        if (t.cfg.heal) {
            if (log) fprintf(log, "--- faults stop\n");
            heal();
        }
    }
    void shutdown()
    {
        seam::thaw();
        for (auto& c : C) release(c);
        lib([&] {
            for (auto& b : B) {
                b.undo_obj.clear();
                b.f.reset();
            }
            if (G)
                for (auto& g : G->g) g.p.reset();
            return 0;
        });
    }
};

static void clean_dir(const std::string& d)
{
    // only files this simulator names, and what the library puts next to them (its temporary files)
    DIR* h = opendir(d.c_str());
    if (!h) return;
    std::vector<std::string> names;
    while (struct dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n.compare(0, 6, "forest") == 0 || n.compare(0, 4, "peek") == 0 || (n.size() > 1 && (n[0] == 'n' || n[0] == 'e') && isdigit((unsigned char)n[1]))) names.push_back(n);
    }
    closedir(h);
    for (auto& n : names) {
        const std::string p = d + "/" + n;
        if (::unlink(p.c_str()) == 0) continue;
        if (DIR* s = opendir(p.c_str())) { // one of ours (see place())
            while (struct dirent* e = readdir(s))
                if (e->d_name[0] != '.' || e->d_name[1]) ::unlink((p + "/" + e->d_name).c_str());
            closedir(s);
            ::rmdir(p.c_str());
        }
    }
}

static uint32_t taint_kinds(int prop, Kind k)
{
    switch (prop) {
    case 5: return k == CATTACK || k == DELIVER;
    case 9: return k == FORK;
    case 10: return k == BREOPEN;
    case 11:
    case 12: return k == BCRASH || k == BNEWCRASH;
    case 13: return k == BDISKERR;
    case 14: return k == BREADERR || k == BDAMAGE;
    case 16: return k == BQALLOC || k == CALLOC;
    case 17: return k == BALLOC;
    case 18: return k == BBAD || k == CBAD;
    default: return 0;
    }
}

static Result run_once(const Trace& t, const std::string& scratch, FILE* log, uint32_t& mask, uint32_t& taint, bool again = false)
{
    Result res;
    seam::thaw();
    seam::disarm_alloc();
    seam::set_alloc_cap(0, 0);
    clean_dir(scratch);
    long base_allocs = seam::live_lib_allocs(), base_fds = seam::open_handles();
    mask = taint = 0;
    bool clean = false;
    int soft = 0;
    {
        World w(t, scratch, log);
        try {
            w.run();
            w.shutdown();
            clean = true;
            soft = w.softfails;
            if (soft) {
                res.cls = w.softcls;
                res.msg = w.softmsg;
            }
        } catch (const Fail& f) {
            mask = f.mask;
            taint = f.taint;
            res.cls = f.cls;
            res.msg = f.msg;
        } catch (const std::exception& e) {
            mask = ALL;
            res.cls = "unexpected-exception";
            res.msg = e.what();
        }
        if (!clean) {
            if (log) fprintf(log, "*** %s: %s\n", res.cls.c_str(), res.msg.c_str());
            seam::disarm_alloc();
            // the broken nodes are abandoned: what they would do while being torn down does not matter any more
            for (auto& b : w.B) (void)b.f.release();
            for (auto& c : w.C) (void)c.p.release();
            if (w.G)
                for (auto& g : w.G->g) (void)g.p.release();
        }
        res.hash = w.loghash;
        res.nontrivial = w.nontriv;
    }
    seam::thaw();
    if (clean) {
        long da = seam::live_lib_allocs() - base_allocs, df = seam::open_handles() - base_fds;
        stats.checks[19]++;
        if ((da || df) && !again) { // memory the library or its runtime sets up once is no leak: it must happen every time
            clean_dir(scratch);
            return run_once(t, scratch, log, mask, taint, true);
        }
        if (da != 0 || df != 0) {
            mask = P(19);
            res.cls = da ? "memory-leak" : "file-handle-leak";
            res.msg = std::to_string(da) + " allocations and " + std::to_string(df) + " file handles left after all nodes were destroyed";
            if (log) fprintf(log, "*** %s: %s\n", res.cls.c_str(), res.msg.c_str());
        } else if (soft)
            mask = FOREIGN_ONLY;
    }
    clean_dir(scratch);
    return res;
}

Result run_trace(const Trace& t, const std::string& scratch, FILE* log)
{
    uint32_t mask, taint;
    Result r = run_once(t, scratch, log, mask, taint);
    stats.runs++;
    if (mask == 0) {
        if (r.nontrivial) {
            stats.nontrivial++;
            if (stats.runhash.size() < 3000000) stats.runhash.insert(r.hash);
        }
        return r;
    }
    if (mask & P(t.prop)) r.v = Result::VIOLATION;
    else if (taint & P(t.prop)) {
        // The failing check belongs to another property, on a node that went through this property's fault. It counts
        // here only if it needs that fault: the same execution without it must be fine.
        Trace u = t;
        u.steps.clear();
        for (auto s : t.steps) {
            if (taint_kinds(t.prop, (Kind)s.kind)) continue;
            if (t.prop == 5 && s.kind == SYNC) s.b = 0;
            u.steps.push_back(s);
        }
        uint32_t m2, t2;
        run_once(u, scratch, nullptr, m2, t2);
        r.v = m2 == 0 ? Result::VIOLATION : Result::FOREIGN;
        if (r.v == Result::VIOLATION) r.msg += " (only after this property's fault)";
    } else
        r.v = Result::FOREIGN;
    if (r.v == Result::FOREIGN) stats.foreign++;
    return r;
}
