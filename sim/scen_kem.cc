// Key-exchange histories between simulated nodes: C01 agreement, C02 rejection, C03 damaged storage, C04 interchange, C13 lanes.
#include <algorithm>
#include <deque>
#include <memory>

#include "scen.h"

namespace {

struct ImplSet : Scenario {
  std::vector<Impl *> impls;
  std::vector<Family> fams;
  bool arm = true;
  bool setup(std::string &err) override {
    impls = load_impls(arm, err);
    fams = families(impls);
    return !impls.empty() && err.empty();
  }
  // Implementations whose histories are made so long that counters of 16 bits (emulated ones: of 8 bits) come round.
  std::vector<size_t> patient() {
    std::vector<size_t> v;
    for (size_t i = 0; i < impls.size(); i++) if (quickest(impls[i]->p, impls[i]->lanes)) v.push_back(i);
    return v;
  }
  i64 long_history(size_t i, Rng &r) { return impls[i]->emulated ? r.range(258, 264) : 65536 + r.range(16, 64); }
  // Emulated processors are slower: they get a smaller share of the random runs.
  size_t pick_impl(Rng &r) {
    for (;;) {
      size_t k = r.below(impls.size());
      if (!impls[k]->emulated || r.chance(1, 2)) return k;
    }
  }
};

OpEnv env(u64 seed, int lanes, size_t want) {
  OpEnv e;
  e.seed = seed;
  e.rnd = drawn_bytes(mix64(seed, 0x5eed), want);
  e.lane = lanes > 1 ? (int)(mix64(seed, 0x1a7e) % lanes) : 0;
  return e;
}

// ======================================================================= C01

struct World;
struct Msg { int type, from, to, sess, slot; Bytes data; bool intact; u64 id; };
enum { REQ, PK, CT, ACK };
struct Session { int client, server, slot; bool have = false, done = false; Bytes ct, ss, pk; u64 epoch = 0; int confirmed = 0; };
struct Node {
  int impl = 0;
  Bytes image;
  bool fresh = true;
  std::map<int, std::pair<Bytes, Bytes>> disk;  // slot -> pk, sk: all that survives a crash
  u64 boot = 0, ops = 0;
};

struct C01 : ImplSet {
  u64 quick_runs() override { return 12000; }
  const char *rule() override {
    return "distinct histories of deliveries (kind, session, order) together with parameter set and implementations of the nodes";
  }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t f = index < 3 * fams.size() ? index % fams.size() : r.below(fams.size());
    if (index >= 3 * fams.size() && slow(f) && r.chance(3, 4)) f = r.below(fams.size());
    std::vector<size_t> pat = patient();
    if (index >= 3 * fams.size() && index < 3 * fams.size() + pat.size()) {
      size_t i = pat[index - 3 * fams.size()];
      p.cfg["impl"] = (i64)i;
      p.add("flood", {r.seed63(), long_history(i, r), (i64)r.range(2, 40)});
      return;
    }
    if (index >= 3 * fams.size() && index % 4 == 3) {  // many exchanges, for what goes wrong seldom
      for (int k = 0; k < 30 && slow(f); k++) f = r.below(fams.size());
      p.cfg["fam"] = (i64)f;
      int n = (int)r.range(1, 4);
      for (int k = 0; k < n; k++) p.add("bulk", {(i64)r.below(8), (i64)r.below(8), r.seed63(), 0, thorough ? 400 : 80, 0});
      p.add("bulk", {(i64)r.below(8), (i64)r.below(8), r.seed63(), 0, 4, 1});
      return;
    }
    p.cfg["fam"] = (i64)f;
    int nodes = (int)r.range(2, 4);
    p.cfg["nodes"] = nodes;
    for (int i = 0; i < nodes; i++) {
      size_t n = fams[f].impls.size(), k = r.below(n);
      if (fams[f].impls[k]->emulated && r.chance(1, 2)) k = r.below(n);
      if (index < 3 * fams.size()) k = (index / fams.size() + i) % n;
      p.cfg["impl" + std::to_string(i)] = (i64)k;
      p.add("key", {i, 0, r.seed63()});
    }
    p.cfg["real_rng"] = r.chance(1, 2);
    int len = (int)r.range(15, thorough ? 160 : 70);
    unsigned wcrash = r.below(4), wcor = r.below(4), wdrop = r.below(8), wdup = r.below(8), wpart = r.below(3);
    for (int i = 0; i < len; i++) {
      u64 x = r.below(40 + wcrash + wcor + wdrop + wdup + wpart + 4);
      if (x < 8) p.add("connect", {(i64)r.below(nodes), (i64)r.below(nodes), (i64)r.below(2), r.seed63()});
      else if (x < 32) p.add("deliver", {r.seed63(), r.seed63()});
      else if (x < 36) p.add("retry", {(i64)r.below(nodes)});
      else if (x < 40) p.add("key", {(i64)r.below(nodes), (i64)r.below(2), r.seed63()});
      else if ((x -= 40) < wcrash) p.add("crash", {(i64)r.below(nodes), (i64)r.below(8), r.seed63()});
      else if ((x -= wcrash) < wcor) { i64 k, a, b; random_damage(r, 1000, k, a, b); p.add("corrupt", {r.seed63(), k, a, b}); }
      else if ((x -= wcor) < wdrop) p.add("drop", {r.seed63()});
      else if ((x -= wdrop) < wdup) p.add("dup", {r.seed63()});
      else if ((x -= wdup) < wpart) p.add("cut", {(i64)r.below(nodes), (i64)r.below(nodes)});
      else if (r.chance(1, 2)) p.add("heal", {});
      else p.add("clock", {(i64)r.below(nodes), r.seed63() - r.seed63()});
    }
  }
  void execute(const Plan &p, Ctx &c) override;
  bool slow(size_t f) { for (auto i : fams[f].impls) if (!i->emulated) return false; return true; }
  void bulk(const Family &f, const Step &s, Ctx &c) {
    std::vector<Impl *> v;
    for (auto i : f.impls) if (!i->emulated) v.push_back(i);
    if (v.empty()) return;
    Impl *a = v[(u64)s.at(0) % v.size()], *b = v[(u64)s.at(1) % v.size()];
    a->reset(); b->reset();
    Bytes pk, sk, ct, s1, s2;
    i64 have = -1;
    for (i64 k = s.at(3); k < s.at(3) + s.at(4); k++) {
      if (k / 4 != have) {
        OpEnv e = env(mix64(s.at(2), 0x100000 + k / 4), a->lanes, 96);
        a->keypair(pk, sk, e);
        c.op("keypair");
        have = k / 4;
      }
      OpEnv e = env(mix64(s.at(2), k), b->lanes, 32), d = env(mix64(s.at(2), 0x200000 + k), a->lanes, 0);
      if (s.at(5)) {  // keys with as much noise as still decrypts; an exchange that fails by the specification does not count
        Model mod(f.p);
        Bytes want;
        u8 x[32], y[32];
        OpEnv g = env(mix64(s.at(2), 0x300000 + k), a->lanes, 96);
        mod.keygen(&g.rnd[0], &g.rnd[32], &g.rnd[64], pk, sk);
        e.rnd = marginal(mod, pk, sk, mix64(s.at(2), 0x400000 + k), 12);
        mod.enc(e.rnd.data(), pk.data(), want, x);
        have = -1;
        if (!mod.dec(want.data(), sk.data(), y)) { c.probe("noisy keys that fail"); continue; }
        c.fault("keys with noise at the edge of correct decryption");
      }
      int r1 = b->enc(ct, s1, pk, e), r2 = a->dec(s2, ct, sk, d);
      c.op("encapsulate"); c.op("decapsulate");
      c.tick(1200);
      c.h(s1); c.h(s2);
      if (r1 || r2 || s1 != s2) return c.fail("disagree", "exchange %lld between %s (key) and %s: %s", (long long)k, a->id.c_str(), b->id.c_str(), r1 || r2 ? "an operation reports an error" : "the secrets differ");
    }
    c.probe("exchanges in bulk", s.at(4));
    c.distinct(mix64(s.at(2), mix64(s.at(0), s.at(1))));
  }
  // One process and one key, with many exchanges; now and then a key is made and thrown away.
  void flood(Impl *im, const Step &s, Ctx &c) {
    im->reset();
    Bytes pk, sk, ct, s1, s2, p2, k2;
    OpEnv g = env(mix64(s.at(0), 1), im->lanes, 96);
    im->keypair(pk, sk, g);
    c.op("keypair");
    for (i64 k = 0; k < s.at(1) && !c.failed; k++) {
      OpEnv e = env(mix64(s.at(0), 2 * k + 2), im->lanes, 32), d = env(mix64(s.at(0), 2 * k + 3), im->lanes, 0);
      if (k % (s.at(2) + 1) == 0) { OpEnv o = env(mix64(s.at(0), mix64(k, 7)), im->lanes, 96); im->keypair(p2, k2, o); }
      int r1 = im->enc(ct, s1, pk, e), r2 = im->dec(s2, ct, sk, d);
      c.tick(1000);
      if (r1 || r2 || s1 != s2) c.fail("disagree", "exchange %lld of one process of %s: %s", (long long)k + 1, im->id.c_str(), r1 || r2 ? "an operation reports an error" : "the secrets differ");
    }
    c.h(s1);
    c.op("encapsulate", s.at(1));
    c.op("decapsulate", s.at(1));
    c.fault("long history before");
    c.distinct(mix64(s.at(0), s.at(1)));
  }
  bool simplify(const Plan &p, int round, Plan &out) override {
    int k = 0;
    for (size_t i = 0; i < p.steps.size(); i++) {
      if (p.steps[i].op != "bulk" || p.steps[i].at(4) <= 1) continue;
      for (int half = 0; half < 2; half++, k++)
        if (k == round) {
          out = p;
          i64 n = p.steps[i].at(4) / 2;
          out.steps[i].a[3] += half ? n : 0;
          out.steps[i].a[4] = half ? p.steps[i].at(4) - n : n;
          return true;
        }
    }
    return false;
  }
};

struct World {
  C01 *s;
  Ctx &c;
  const Family &f;
  std::vector<Node> nodes;
  std::vector<Session> sess;
  std::deque<Msg> net;
  std::set<std::pair<int, int>> cut;
  std::map<Impl *, int> owner;
  bool real_rng;
  u64 msgid = 0, shape = 0;
  World(C01 *s_, Ctx &c_, const Family &f_) : s(s_), c(c_), f(f_) {}

  Impl *impl(int n) { return f.impls[nodes[n].impl % f.impls.size()]; }
  Impl *enter(int n) {  // switches the processor to the process of node n
    Impl *i = impl(n);
    auto it = owner.find(i);
    if (it != owner.end() && it->second == n && !nodes[n].fresh) return i;
    if (it != owner.end() && it->second != n) i->save(nodes[it->second].image);
    owner[i] = n;
    if (nodes[n].fresh) {
      i->reset();
      nodes[n].fresh = false;
      i->seed_rng(seeded(mix64(nodes[n].boot, 0xb007), 48).data());
    } else i->restore(nodes[n].image);
    return i;
  }
  void crash(int n, int newimpl, u64 seed) {
    Impl *i = impl(n);
    auto it = owner.find(i);
    if (it != owner.end() && it->second == n) owner.erase(it);
    nodes[n].fresh = true;
    nodes[n].image.clear();
    nodes[n].impl = newimpl;
    nodes[n].boot = seed;
    nodes[n].ops = 0;
    for (auto &x : sess) if (x.client == n && !x.done) { x.have = false; x.ct.clear(); x.ss.clear(); x.epoch++; }
  }
  OpEnv openv(int n, Impl *i, size_t want) {
    OpEnv e = env(mix64(nodes[n].boot + 0x1000 * n, nodes[n].ops++), i->lanes, want);
    e.real_rng = real_rng && !i->emulated;
    return e;
  }
  void key(int n, int slot, u64 seed) {
    Impl *i = enter(n);
    OpEnv e = openv(n, i, 96);
    e.seed = mix64(e.seed, seed);
    e.rnd = drawn_bytes(mix64(seed, 3), 96);
    Bytes pk, sk;
    int rc = i->keypair(pk, sk, e);
    c.op("keypair");
    c.ev("node %d (%s) keypair slot %d rc %d pk %s", n, i->id.c_str(), slot, rc, hex(pk.data(), 8).c_str());
    if (rc) return c.fail("keygen-status", "%s: key generation returned %d", i->id.c_str(), rc);
    nodes[n].disk[slot] = {pk, sk};
    c.tick(400);
  }
  void send(int type, int from, int to, int ses, int slot, Bytes data) {
    net.push_back({type, from, to, ses, slot, std::move(data), true, msgid++});
    if (net.size() > 64) net.pop_front();
  }
  void connect(int a, int b, int slot) {
    if (a == b || sess.size() > 40) return;
    Session x;
    x.client = a; x.server = b; x.slot = slot;
    sess.push_back(x);
    send(REQ, a, b, (int)sess.size() - 1, slot, {});
  }
  void retry(int n) {
    for (size_t k = 0; k < sess.size(); k++) {
      Session &x = sess[k];
      if (x.client != n || x.done) continue;
      if (x.have) send(CT, n, x.server, (int)k, x.slot, x.ct);
      else send(REQ, n, x.server, (int)k, x.slot, {});
    }
  }
  void handle(const Msg &m) {
    Session &x = sess[m.sess];
    shape = mix64(shape, (u64)m.type * 64 + m.sess);
    c.tick(100);
    switch (m.type) {
      case REQ: {
        auto it = nodes[m.to].disk.find(m.slot);
        if (it == nodes[m.to].disk.end()) it = nodes[m.to].disk.find(0);
        if (it == nodes[m.to].disk.end()) return;
        Bytes d(1, (u8)it->first);
        d.insert(d.end(), it->second.first.begin(), it->second.first.end());
        send(PK, m.to, m.from, m.sess, it->first, d);
        return;
      }
      case PK: {
        if (x.client != m.to || x.have || x.done || m.data.size() != f.p.pkbytes() + 1) return;
        Impl *i = enter(m.to);
        OpEnv e = openv(m.to, i, 32);
        x.pk.assign(m.data.begin() + 1, m.data.end());
        int rc = i->enc(x.ct, x.ss, x.pk, e);
        c.op("encapsulate");
        c.ev("node %d (%s) encapsulates session %d rc %d ss %s", m.to, i->id.c_str(), m.sess, rc, hex(x.ss.data(), 8).c_str());
        if (rc) return c.fail("encaps-status", "%s: encapsulation returned %d", i->id.c_str(), rc);
        x.have = true;
        x.slot = m.slot;
        send(CT, m.to, m.from, m.sess, m.slot, x.ct);
        c.tick(500);
        return;
      }
      case CT: {
        auto it = nodes[m.to].disk.find(m.slot);
        if (it == nodes[m.to].disk.end() || m.data.size() != f.p.ctbytes()) return;
        Impl *i = enter(m.to);
        OpEnv e = openv(m.to, i, 0);
        Bytes ss;
        int rc = i->dec(ss, m.data, it->second.second, e);
        c.op("decapsulate");
        c.tick(600);
        bool same_key = it->second.first == x.pk, honest = x.have && m.data == x.ct && same_key;
        c.ev("node %d (%s) decapsulates session %d rc %d honest %d ss %s", m.to, i->id.c_str(), m.sess, rc, honest, hex(ss.data(), 8).c_str());
        if (honest) {
          c.probe(x.confirmed ? "redelivered" : "first delivery");
          if (rc) return c.fail("decaps-status", "%s: decapsulation returned %d", i->id.c_str(), rc);
          if (ss != x.ss)
            return c.fail("disagreement", "session %d: %s encapsulated %s, %s decapsulated %s from the unmodified ciphertext", m.sess,
                          impl(x.client)->id.c_str(), hex(x.ss.data(), 32, 32).c_str(), i->id.c_str(), hex(ss.data(), 32, 32).c_str());
          x.confirmed++;
        }
        Bytes d(1, (u8)(same_key ? 1 : 0));  // the answer carries a confirmation; 0: this key is gone
        u8 h[32];
        sha3(256, ss.data(), ss.size(), h);
        d.insert(d.end(), h, h + 32);
        send(ACK, m.to, m.from, m.sess, m.slot, d);
        return;
      }
      case ACK: {
        if (x.client != m.to || !x.have || x.done || m.data.size() != 33) return;
        u8 h[32];
        sha3(256, x.ss.data(), x.ss.size(), h);
        if (!memcmp(h, m.data.data() + 1, 32)) { x.done = true; c.probe("session confirmed"); }
        else if (m.data[0] == 0) { x.have = false; c.probe("key was replaced"); }
        return;
      }
    }
  }
  void deliver(u64 pick) {
    if (net.empty()) return;
    size_t k = pick % net.size();
    if (k) c.fault("message reordered or delayed");
    Msg m = net[k];
    net.erase(net.begin() + k);
    if (cut.count({m.from, m.to})) { c.fault("message lost in a partition"); return; }
    handle(m);
  }
};

void C01::execute(const Plan &p, Ctx &c) {
  const Family &f = fams[(u64)p.get("fam") % fams.size()];
  if (!p.steps.empty() && p.steps[0].op == "flood") {
    for (auto &s : p.steps) if (!c.failed) flood(impls[(u64)p.get("impl") % impls.size()], s, c);
    return;
  }
  if (!p.steps.empty() && p.steps[0].op == "bulk") {
    for (auto &s : p.steps) if (!c.failed) bulk(f, s, c);
    return;
  }
  World w(this, c, f);
  w.real_rng = p.get("real_rng");
  int n = (int)p.get("nodes", 2);
  w.nodes.resize(n);
  for (int i = 0; i < n; i++) {
    w.nodes[i].impl = (int)p.get(("impl" + std::to_string(i)).c_str());
    w.nodes[i].boot = mix64(77, i);
  }
  for (auto i : f.impls) i->reset();
  g_clock = 1;
  for (auto &s : p.steps) {
    if (c.failed) return;
    if (s.op == "key") w.key(s.at(0) % n, (int)s.at(1), s.at(2));
    else if (s.op == "connect") w.connect(s.at(0) % n, s.at(1) % n, (int)s.at(2));
    else if (s.op == "deliver") w.deliver(s.at(0) & 1 ? s.at(1) : 0);
    else if (s.op == "retry") w.retry(s.at(0) % n);
    else if (s.op == "drop") { if (!w.net.empty()) { w.net.erase(w.net.begin() + s.at(0) % w.net.size()); c.fault("message lost"); } }
    else if (s.op == "dup") { if (!w.net.empty()) { w.net.push_back(w.net[s.at(0) % w.net.size()]); c.fault("message duplicated"); } }
    else if (s.op == "corrupt") {
      if (w.net.empty()) continue;
      Msg m = w.net[s.at(0) % w.net.size()];
      if (m.type != CT) continue;
      damage(m.data, s.at(1), s.at(2), s.at(3), seeded(s.at(3), m.data.size()));
      m.intact = false;
      w.net.push_back(m);
      c.fault("corrupted copy in flight");
    } else if (s.op == "crash") {
      int k = s.at(0) % n;
      c.fault("crash and restart");
      if ((u64)s.at(1) % f.impls.size() != (u64)w.nodes[k].impl % f.impls.size()) c.fault("restart with another implementation");
      w.crash(k, (int)s.at(1), s.at(2));
    } else if (s.op == "cut") { if (s.at(0) % n != s.at(1) % n) { w.cut.insert({s.at(0) % n, s.at(1) % n}); c.fault("partition"); } }
    else if (s.op == "heal") { if (!w.cut.empty()) { w.cut.clear(); c.probe("partition healed"); } }
    else if (s.op == "clock") { g_clock += s.at(1); c.fault("clock jump"); }
    w.shape = mix64(w.shape, s.op[0]);
  }
  // faults stop: every session has to complete within four exchanges of messages
  w.cut.clear();
  for (int i = 0; i < n && !c.failed; i++) if (w.nodes[i].disk.empty()) w.key(i, 0, 99 + i);
  for (int round = 0; round < 4 && !c.failed; round++) {
    bool open = false;
    for (auto &x : w.sess) open |= !x.done;
    if (!open) break;
    for (int i = 0; i < n; i++) w.retry(i);
    for (int k = 0; k < 400 && !w.net.empty() && !c.failed; k++) w.deliver(0);
  }
  if (c.failed) return;
  for (size_t k = 0; k < w.sess.size(); k++)
    if (!w.sess[k].done)
      return c.fail("no-progress", "session %zu between %s and %s is still open four rounds after the last fault", k,
                    w.impl(w.sess[k].client)->id.c_str(), w.impl(w.sess[k].server)->id.c_str());
  u64 d = mix64(w.shape, (u64)p.get("fam"));
  for (auto &x : w.nodes) d = mix64(d, x.impl);
  c.distinct(d);
}

// ======================================================================= C02

struct C02 : ImplSet {
  const size_t SEG = 512;
  u64 quick_runs() override { return sweeps() + 9000; }
  // implementations that run natively see every bit of a ciphertext flipped, emulated ones a bit of every byte
  u64 segments(const Impl *i) { return i->emulated ? (i->p.ctbytes() + 63) / 64 : (i->p.ctbytes() * 8 + SEG - 1) / SEG; }
  u64 sweeps() {
    u64 n = 0;
    for (auto i : impls) n += segments(i);
    return n;
  }
  const char *rule() override {
    return "distinct (implementation, altered ciphertext) pairs that were decapsulated; the single-bit sweeps visit every bit position of native and every byte of emulated implementations";
  }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    u64 k = index;
    if (index < sweeps()) {
      for (size_t i = 0; i < impls.size(); i++) {
        u64 n = segments(impls[i]);
        if (k < n) {
          p.cfg["impl"] = (i64)i;
          p.add("key", {0, r.seed63()});
          p.add("send", {0, 0, r.seed63()});
          if (k == 0) for (i64 part = 0; part < 2 + impls[i]->p.l; part++) for (i64 mode = 0; mode < 3; mode++) p.add("fill", {0, part, mode});
          if (impls[i]->emulated) for (u64 b = 0; b < 64; b++) p.add("sweep", {0, (i64)((k * 64 + b) * 8 + r.below(8)), 1});
          else for (u64 b = 0; b < SEG; b += 64) p.add("sweep", {0, (i64)(k * SEG + b), 64});
          return;
        }
        k -= n;
      }
    }
    std::vector<size_t> pat = patient();
    if (index < sweeps() + pat.size()) {  // very many altered messages to one process, an intact one now and then
      size_t i = pat[index - sweeps()];
      p.cfg["impl"] = (i64)i;
      p.add("key", {0, r.seed63()});
      p.add("send", {0, 0, r.seed63()});
      p.add("flood", {0, r.seed63(), long_history(i, r), (i64)r.range(20, 2000)});
      return;
    }
    size_t im = pick_impl(r);
    p.cfg["impl"] = (i64)im;
    int keys = (int)r.range(1, 3), sess = (int)r.range(1, 4), len = (int)r.range(10, thorough ? 200 : 60);
    if (impls[im]->emulated) len = std::min(len, 14);
    for (int i = 0; i < keys; i++) p.add("key", {i, r.seed63()});
    for (int i = 0; i < sess; i++) p.add("send", {i, (i64)r.below(keys), r.seed63()});
    size_t n = impls[im]->p.ctbytes();
    for (int i = 0; i < len; i++) {
      u64 x = r.below(30);
      i64 kd, a, b;
      random_damage(r, n, kd, a, b);
      if (x < 22) p.add("bad", {(i64)r.below(sess), kd, a, b, (i64)r.below(sess)});
      else if (x < 24) p.add("cross", {(i64)r.below(sess), (i64)r.below(keys)});
      else if (x < 25) p.add("bad2", {(i64)r.below(sess), kd, a, b, (i64)r.below(DAMAGE_KINDS), r.seed63(), r.seed63()});
      else if (x < 26) p.add("good", {(i64)r.below(sess)});
      else if (x < 27) p.add("send", {(i64)r.below(sess), (i64)r.below(keys), r.seed63()});
      else if (x < 28) p.add("key", {(i64)r.below(keys), r.seed63()});
      else if (x < 29) p.add("crash", {});
      else p.add("again", {});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Impl *im = impls[(u64)p.get("impl") % impls.size()];
    Model mod(im->p);
    im->reset();
    struct Sess { Bytes ct, ss, pk; int key = -1; };
    std::map<int, std::pair<Bytes, Bytes>> keys;
    std::map<int, Sess> ses;
    Bytes last_ct, last_sk, last_ss;
    u64 ops = 0;
    auto bad = [&](const Bytes &ct, const Bytes &sk, const Bytes &honest, const char *what) {
      OpEnv e = env(mix64(ops++, 0xc02), im->lanes, 0);
      Bytes ss;
      int rc = im->dec(ss, ct, sk, e);
      c.op("decapsulate");
      c.tick(600);
      c.h(ss);
      u8 want[32];
      mod.reject(ct.data(), sk.data(), want);
      c.distinct(mix64((u64)p.get("impl"), fnv(ct)));
      if (c.verbose) c.ev("%s: %s -> rc %d ss %s", im->id.c_str(), what, rc, hex(ss.data(), 8).c_str());
      if (rc) c.fail("status", "%s: decapsulation of an altered ciphertext (%s) returned %d", im->id.c_str(), what, rc);
      else if (memcmp(ss.data(), want, 32))
        c.fail(ss == honest ? "accepted" : "wrong-rejection",
               "%s: altered ciphertext (%s) gave %s%s, the secret for rejection is %s", im->id.c_str(), what, hex(ss.data(), 32, 32).c_str(),
               ss == honest ? " (the honest secret)" : "", hex(want, 32, 32).c_str());
      last_ct = ct; last_sk = sk; last_ss = ss;
    };
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "key") {
        OpEnv e = env(s.at(1), im->lanes, 96);
        auto &k = keys[(int)s.at(0)];
        im->keypair(k.first, k.second, e);
        c.op("keypair");
        c.h(k.second);
      } else if (s.op == "send") {
        if (!keys.count((int)s.at(1))) continue;
        OpEnv e = env(s.at(2), im->lanes, 32);
        Sess &x = ses[(int)s.at(0)];
        x.key = (int)s.at(1);
        x.pk = keys[x.key].first;
        im->enc(x.ct, x.ss, keys[x.key].first, e);
        c.op("encapsulate");
        c.h(x.ct);
      } else if (s.op == "crash") {
        im->reset();
        c.fault("crash and restart");
      } else if (s.op == "again") {
        if (last_ct.empty()) continue;
        OpEnv e = env(mix64(ops++, 0xa6a), im->lanes, 0);
        Bytes ss;
        im->dec(ss, last_ct, last_sk, e);
        c.op("decapsulate");
        c.fault("altered message delivered again");
        if (ss != last_ss) c.fail("unstable", "%s: the same altered ciphertext gave %s, then %s", im->id.c_str(), hex(last_ss.data(), 32, 32).c_str(), hex(ss.data(), 32, 32).c_str());
      } else {
        if (!ses.count((int)s.at(0))) continue;
        Sess &x = ses[(int)s.at(0)];
        if (s.op == "good") {
          OpEnv e = env(mix64(ops++, 0x600d), im->lanes, 0);
          Bytes ss;
          im->dec(ss, x.ct, keys[x.key].second, e);
          c.op("decapsulate");
          c.h(ss);
        } else if (s.op == "cross") {
          if (!keys.count((int)s.at(1)) || keys[(int)s.at(1)].first == x.pk) continue;
          c.fault("ciphertext for another key");
          bad(x.ct, keys[(int)s.at(1)].second, x.ss, "ciphertext for another key");
        } else if (s.op == "fill") {  // a part of the ciphertext (all of it, the last part, one polynomial) erased or inverted
          Bytes ct = x.ct;
          size_t one = 320, vec = one * im->p.l, off = 0, len = ct.size();
          if (s.at(1) == 1) off = vec, len = ct.size() - vec;
          else if (s.at(1) > 1) off = one * (u64)(s.at(1) - 2), len = one;
          for (size_t i = off; i < off + len && i < ct.size(); i++) ct[i] = s.at(2) == 0 ? 0 : s.at(2) == 1 ? 0xff : (u8)~ct[i];
          c.fault("part of the ciphertext erased");
          bad(ct, keys[x.key].second, x.ss, "a part erased");
        } else if (s.op == "flood") {
          u64 at = 0;
          for (i64 k = 0; k < s.at(2) && !c.failed; k++) {
            Bytes ct = x.ct;
            at = mix64(s.at(1), k);
            ct[at % ct.size()] ^= (u8)(1 << ((at >> 32) & 7));
            char t[60];
            snprintf(t, sizeof t, "bit %d of byte %d flipped, message %lld", (int)((at >> 32) & 7), (int)(at % ct.size()), (long long)k + 1);
            bad(ct, keys[x.key].second, x.ss, t);
            if (k % s.at(3) == 0) {
              OpEnv e = env(mix64(ops++, 0x600d), im->lanes, 0);
              Bytes ss;
              im->dec(ss, x.ct, keys[x.key].second, e);
            }
          }
          c.fault("bit flip", s.at(2));
          c.fault("long history before");
        } else if (s.op == "sweep") {
          for (i64 b = s.at(1); b < s.at(1) + s.at(2) && b < (i64)x.ct.size() * 8 && !c.failed; b++) {
            Bytes ct = x.ct;
            ct[b / 8] ^= (u8)(1 << (b & 7));
            c.fault("bit flip");
            char t[40];
            snprintf(t, sizeof t, "bit %d of byte %d flipped", (int)(b & 7), (int)(b / 8));
            bad(ct, keys[x.key].second, x.ss, t);
          }
        } else {
          Bytes ct = x.ct, other = ses.count((int)s.at(4)) ? ses[(int)s.at(4)].ct : Bytes();
          if (s.op == "bad2") { damage(ct, s.at(4), s.at(5), s.at(6), seeded(s.at(5), ct.size())); other.clear(); }
          if (other.empty() || other == x.ct) other = seeded(mix64(s.at(2), s.at(3)), ct.size());
          damage(ct, s.at(1), s.at(2), s.at(3), other);
          const Bytes &now = keys[x.key].first;
          if (ct == x.ct && now == x.pk) continue;
          bool honest_other = false;
          for (auto &y : ses) honest_other |= y.second.ct == ct && y.second.pk == now;
          if (honest_other) continue;
          c.fault(damage_name(s.at(1)));
          bad(ct, keys[x.key].second, x.ss, damage_name(s.at(1)));
        }
      }
    }
  }
  bool simplify(const Plan &p, int round, Plan &out) override {  // a failing sweep of many bits shrinks to one bit
    int k = 0;
    for (size_t i = 0; i < p.steps.size(); i++) {
      if (p.steps[i].op != "sweep" || p.steps[i].at(2) <= 1) continue;
      for (int half = 0; half < 2; half++, k++)
        if (k == round) {
          out = p;
          i64 n = p.steps[i].at(2) / 2;
          out.steps[i].a = half ? std::vector<i64>{p.steps[i].at(0), p.steps[i].at(1) + n, p.steps[i].at(2) - n} : std::vector<i64>{p.steps[i].at(0), p.steps[i].at(1), n};
          return true;
        }
    }
    return false;
  }
};

// ======================================================================= C03

struct C03 : ImplSet {
  u64 quick_runs() override { return 20000; }
  const char *rule() override { return "distinct (implementation, operation, damaged or hostile key, ciphertext) inputs compared with the model"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t im = index < 7 * impls.size() ? index % impls.size() : pick_impl(r);
    p.cfg["impl"] = (i64)im;
    const Params &q = impls[im]->p;
    int len = (int)r.range(8, thorough ? 100 : 36);
    if (impls[im]->emulated) len = std::min(len, 10);
    std::vector<size_t> pat = patient();
    if (index >= 7 * impls.size() && index < 7 * impls.size() + 2 * pat.size()) {  // one process that meets the damaged key again and again
      u64 k = index - 7 * impls.size();
      size_t i = pat[k / 2];
      i64 kd, a, b;
      p.cfg["impl"] = (i64)i;
      p.add("key", {0, r.seed63()});
      p.add("key", {1, r.seed63()});
      p.add("send", {0, 0, r.seed63()});
      random_damage(r, impls[i]->p.skbytes(), kd, a, b);
      p.add("rot", {0, 0, kd, a, b});
      p.add("flood", {0, (i64)(k & 1), r.seed63(), long_history(i, r)});
      return;
    }
    p.add("key", {0, r.seed63()});
    p.add("key", {1, r.seed63()});
    p.add("send", {0, 0, r.seed63()});
    p.add("send", {1, 1, r.seed63()});
    if (index < 3 * impls.size()) {  // each part of the keys all zero, all ones, or like another part
      i64 mode = (i64)(index / impls.size());
      for (i64 part = 0; part < FILL_PARTS + q.l; part++) {
        i64 kd, a, b;
        p.add("fill", {0, part, mode});
        p.add("dec", {0, 0});
        random_damage(r, q.ctbytes(), kd, a, b);
        p.add("decbad", {0, 0, kd, a, b});
        if (part < 3 || part >= FILL_PARTS) p.add("enc", {0, 6, part, mode, 0, r.seed63()});
        p.add("restore", {0});
      }
      return;
    }
    for (int i = 0; i < len; i++) {
      u64 x = r.below(20);
      i64 kd, a, b;
      if (x < 6) {
        i64 reg = r.chance(1, 2) ? 1 : (i64)r.below(5);
        size_t n[] = {q.skbytes(), q.skvec(), q.pkbytes(), 32, 32};
        random_damage(r, n[reg], kd, a, b);
        p.add("rot", {(i64)r.below(2), reg, kd, a, b});
      } else if (x < 8) p.add("hostile", {(i64)r.below(2), (i64)r.below(5), r.seed63()});
      else if (x < 13) p.add("dec", {(i64)r.below(2), (i64)r.below(2)});
      else if (x < 15) { random_damage(r, q.ctbytes(), kd, a, b); p.add("decbad", {(i64)r.below(2), (i64)r.below(2), kd, a, b}); }
      else if (x < 18) { random_damage(r, q.pkbytes(), kd, a, b); p.add("enc", {(i64)r.below(2), (i64)r.below(6), kd, a, b, r.seed63()}); }
      else if (x < 19) p.add("restore", {(i64)r.below(2)});
      else p.add("crash", {});
      if (r.chance(1, impls[im]->emulated ? 40 : 10)) p.add("marginal", {(i64)r.below(2), r.seed63()});
    }
  }
  // parts of keys: whole, seed, public vector, secret vector, public key in it, hash, rejection secret; then single polynomials
  enum { FILL_PARTS = 7 };
  static void fill_part(const Params &q, Bytes &key, bool secret, int part, int mode) {
    size_t sv = secret ? q.skvec() : 0, pb = q.pkbytes(), off, len;
    switch (part) {
      case 0: off = 0; len = key.size(); break;
      case 1: off = sv + pb - 32; len = 32; break;
      case 2: off = sv; len = pb - 32; break;
      case 3: off = 0; len = sv; break;
      case 4: off = sv; len = pb; break;
      case 5: off = sv + pb; len = 32; break;
      case 6: off = sv + pb + 32; len = 32; break;
      default: {
        size_t one = secret ? q.skvec() / q.l : (pb - 32) / q.l;
        off = one * ((part - FILL_PARTS) % q.l);
        len = one;
      }
    }
    if (off + len > key.size()) return;
    for (size_t i = 0; i < len; i++) key[off + i] = mode == 0 ? 0 : mode == 1 ? 0xff : key[(off + i + (len == 32 && secret ? (part == 6 ? key.size() - 32 : 32) : len)) % key.size()];
  }
  // secret or public polynomials at the edge of what the encoding can express
  static void extreme(Bytes &b, size_t off, size_t coeffs, int bits, int style, u64 seed) {
    Rng r(seed);
    for (size_t i = 0; i < coeffs; i++) {
      u32 top = (1u << bits) - 1, v;
      switch (style) {
        case 0: v = top; break;
        case 1: v = r.chance(1, 2) ? top : 0; break;
        case 2: v = 1u << (bits - 1); break;
        case 3: v = r.below(1u << bits); break;
        default: v = r.chance(1, 8) ? (u32)r.below(1u << bits) : (u32)(top - r.below(6)); break;
      }
      for (int k = 0; k < bits; k++) {
        size_t pos = off * 8 + i * bits + k;
        b[pos / 8] = (u8)((b[pos / 8] & ~(1 << (pos & 7))) | (((v >> k) & 1) << (pos & 7)));
      }
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    Impl *im = impls[(u64)p.get("impl") % impls.size()];
    const Params &q = im->p;
    Model mod(q);
    im->reset();
    std::map<int, std::pair<Bytes, Bytes>> keys, backup;
    std::map<int, Bytes> cts;
    u64 ops = 0;
    auto dec = [&](const Bytes &ct, const Bytes &sk, const char *what) {
      OpEnv e = env(mix64(ops++, 0xc03), im->lanes, 0);
      Bytes ss;
      u8 want[32];
      bool acc = mod.dec(ct.data(), sk.data(), want);
      int rc = im->dec(ss, ct, sk, e);
      c.op("decapsulate");
      c.tick(600);
      c.probe(acc ? "accepted" : "rejected");
      c.h(ss);
      c.distinct(mix64(mix64((u64)p.get("impl"), fnv(ct)), fnv(sk)));
      if (c.verbose) c.ev("%s: decapsulation of %s -> rc %d ss %s", im->id.c_str(), what, rc, hex(ss.data(), 8).c_str());
      if (rc) c.fail("status", "%s: decapsulation with a damaged key returned %d", im->id.c_str(), rc);
      else if (memcmp(ss.data(), want, 32))
        c.fail("decaps", "%s: %s with secret key %016llx gave %s, the specification says %s (%s)", im->id.c_str(), what, (unsigned long long)fnv(sk),
               hex(ss.data(), 32, 32).c_str(), hex(want, 32, 32).c_str(), acc ? "accept" : "reject");
    };
    for (auto &s : p.steps) {
      if (c.failed) return;
      int k = (int)s.at(0);
      if (s.op == "key") {
        OpEnv e = env(s.at(1), im->lanes, 96);
        im->keypair(keys[k].first, keys[k].second, e);
        backup[k] = keys[k];
        c.op("keypair");
        c.h(keys[k].second);
      } else if (s.op == "send") {
        if (!keys.count((int)s.at(1))) continue;
        OpEnv e = env(s.at(2), im->lanes, 32);
        Bytes ss;
        im->enc(cts[k], ss, keys[(int)s.at(1)].first, e);
        c.op("encapsulate");
        c.h(cts[k]);
      } else if (s.op == "rot") {
        if (!keys.count(k)) continue;
        size_t off[] = {0, 0, q.skvec(), q.skvec() + q.pkbytes(), q.skbytes() - 32}, len[] = {q.skbytes(), q.skvec(), q.pkbytes(), 32, 32};
        size_t reg = (u64)s.at(1) % 5;
        Bytes &sk = keys[k].second;
        Bytes part(sk.begin() + off[reg], sk.begin() + off[reg] + len[reg]), before = part;
        const Bytes &osrc = keys.count(1 - k) ? keys[1 - k].second : sk;
        damage(part, s.at(2), s.at(3), s.at(4), Bytes(osrc.begin() + off[reg], osrc.begin() + off[reg] + len[reg]));
        if (part != before) c.fault((std::string("stored key: ") + damage_name(s.at(2))).c_str());
        std::copy(part.begin(), part.end(), sk.begin() + off[reg]);
      } else if (s.op == "fill") {
        if (!keys.count(k)) continue;
        fill_part(q, keys[k].second, true, (int)s.at(1), (int)s.at(2));
        c.fault("stored key: a part erased or overwritten with another");
      } else if (s.op == "hostile") {
        if (!keys.count(k)) continue;
        extreme(keys[k].second, 0, (size_t)q.l * 256, q.eq(), (int)s.at(1), s.at(2));
        if (s.at(2) & 1) extreme(keys[k].second, q.skvec(), (size_t)q.l * 256, 10, (int)((s.at(2) >> 1) & 3), s.at(2) + 1);
        c.fault("stored key: coefficients out of range");
      } else if (s.op == "marginal") {
        if (!backup.count(k)) continue;
        keys[k] = backup[k];
        OpEnv e = env(s.at(1), im->lanes, 32);
        e.rnd = marginal(mod, keys[k].first, keys[k].second, s.at(1), im->emulated ? 24 : 6);
        c.fault("stored key: noise at the edge of correct decryption");
        Bytes ct, ss, wct;
        u8 want[32];
        mod.enc(e.rnd.data(), keys[k].first.data(), wct, want);
        int rc = im->enc(ct, ss, keys[k].first, e);
        c.op("encapsulate");
        c.h(ct);
        if (rc || ct != wct || memcmp(ss.data(), want, 32)) { c.fail("encaps", "%s: encapsulation to a noisy public key differs from the specification", im->id.c_str()); continue; }
        cts[k] = ct;
        dec(ct, keys[k].second, "an honest ciphertext under a noisy key");
      } else if (s.op == "flood") {
        if (!keys.count(k) || !cts.count(k)) continue;
        Bytes pk = keys[k].first, ct, ss, wct;
        u8 want[32];
        extreme(pk, 0, (size_t)q.l * 256, 10, (int)(s.at(2) & 3), s.at(2));
        OpEnv g = env(s.at(2), im->lanes, 32);
        if (s.at(1)) mod.enc(g.rnd.data(), pk.data(), wct, want);
        else mod.dec(cts[k].data(), keys[k].second.data(), want);
        int rc = 0;
        for (i64 n = 0; n < s.at(3) && !c.failed; n++) {
          OpEnv e = g;
          e.seed = mix64(s.at(2), n);
          if (s.at(1)) rc = im->enc(ct, ss, pk, e);
          else rc = im->dec(ss, cts[k], keys[k].second, e);
          c.tick(500);
          if (rc || ct != wct || memcmp(ss.data(), want, 32))
            c.fail(s.at(1) ? "encaps" : "decaps", "%s: %s a damaged key differs from the specification when it is done for the %lldth time", im->id.c_str(), s.at(1) ? "encapsulation to" : "decapsulation with", (long long)n + 1);
        }
        c.h(ss);
        c.op(s.at(1) ? "encapsulate" : "decapsulate", s.at(3));
        c.fault("long history before");
      } else if (s.op == "restore") {
        if (backup.count(k)) keys[k] = backup[k];
      } else if (s.op == "crash") {
        im->reset();
        c.fault("crash and restart");
      } else if (s.op == "dec" || s.op == "decbad") {
        if (!keys.count((int)s.at(1)) || !cts.count(k)) continue;
        Bytes ct = cts[k];
        if (s.op == "decbad") { damage(ct, s.at(2), s.at(3), s.at(4), seeded(s.at(4), ct.size())); c.fault("ciphertext damaged as well"); }
        dec(ct, keys[(int)s.at(1)].second, s.op == "dec" ? "an honest ciphertext" : "a damaged ciphertext");
      } else if (s.op == "enc") {
        if (!keys.count(k)) continue;
        Bytes pk = keys[k].first;
        if (s.at(1) == 5) damage(pk, s.at(2), s.at(3), s.at(4), seeded(s.at(4), pk.size()));
        else if (s.at(1) == 6) fill_part(q, pk, false, (int)s.at(2), (int)s.at(3));
        else {
          extreme(pk, 0, (size_t)q.l * 256, 10, (int)s.at(1), s.at(3));
          if (s.at(3) & 1) std::fill(pk.end() - 32, pk.end(), (u8)s.at(4));
        }
        c.fault("hostile public key");
        OpEnv e = env(s.at(5), im->lanes, 32);
        Bytes ct, ss, wct;
        u8 want[32];
        mod.enc(e.rnd.data(), pk.data(), wct, want);
        int rc = im->enc(ct, ss, pk, e);
        c.op("encapsulate");
        c.h(ct);
        c.h(ss);
        c.distinct(mix64(mix64((u64)p.get("impl"), fnv(ct)), fnv(pk)));
        if (rc) c.fail("status", "%s: encapsulation to an arbitrary public key returned %d", im->id.c_str(), rc);
        else if (ct != wct || memcmp(ss.data(), want, 32))
          c.fail("encaps", "%s: encapsulation to public key %016llx differs from the specification (%s)", im->id.c_str(), (unsigned long long)fnv(pk),
                 ct != wct ? "ciphertext" : "shared secret");
      }
    }
  }
};

// ======================================================================= C04

struct C04 : ImplSet {
  std::vector<size_t> multi;
  bool setup(std::string &err) override {
    if (!ImplSet::setup(err)) return false;
    for (size_t i = 0; i < fams.size(); i++) if (fams[i].impls.size() > 1) multi.push_back(i);
    return true;
  }
  u64 quick_runs() override { return 14000; }
  const char *rule() override { return "distinct (parameter set, operation, inputs, random stream) executed by all implementations of the set and compared"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    size_t f = multi[index < 6 * multi.size() ? index % multi.size() : r.below(multi.size())];
    p.cfg["fam"] = (i64)f;
    auto has_native = [&](size_t k) { for (auto i : fams[k].impls) if (!i->emulated) return true; return false; };
    bool native = has_native(f);
    if (!native && index >= 6 * multi.size() && r.chance(3, 4)) {
      for (int k = 0; k < 20 && !native; k++) native = has_native(f = multi[r.below(multi.size())]);
      p.cfg["fam"] = (i64)f;
    }
    p.cfg["emulated"] = !native || r.chance(1, 4);
    if (index >= 6 * multi.size() && index < 8 * multi.size()) {  // the same very long history
      f = multi[index % multi.size()];
      p.cfg["fam"] = (i64)f;
      bool em = index >= 7 * multi.size();
      p.cfg["emulated"] = em;
      p.add("key", {0, r.seed63()});
      p.add("flood", {0, r.seed63(), em ? quickest(fams[f].p, 1) ? r.range(258, 264) : 12 : !quickest(fams[f].p, 1) ? r.range(258, 264) : 65536 + r.range(16, 64)});
      return;
    }
    int len = (int)r.range(6, thorough ? 60 : 26);
    if (p.cfg["emulated"]) len = (int)r.range(3, 8);
    const Params &q = fams[f].p;
    p.add("key", {0, r.seed63()});
    p.add("key", {1, r.seed63()});
    p.add("enc", {0, 0, 0, 0, 0, 0, r.seed63()});
    for (int i = 0; i < len; i++) {
      u64 x = r.below(20);
      i64 kd, a, b, reg = (i64)r.below(3);
      random_damage(r, x < 8 ? q.ctbytes() : q.skbytes(), kd, a, b);
      if (x < 8) p.add("dec", {(i64)r.below(2), (i64)r.below(3), r.chance(1, 2), kd, a, b, r.seed63()});
      else if (x < 13) p.add("enc", {(i64)r.below(2), (i64)r.below(3), r.chance(1, 4), kd, a, b, r.seed63()});
      else if (x < 16) p.add("key", {(i64)r.below(2), r.seed63()});
      else if (x < 18) p.add("rot", {(i64)r.below(2), reg, kd, a, b});
      else p.add("crash", {(i64)r.below(8)});
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    const Family &f = fams[(u64)p.get("fam") % fams.size()];
    std::vector<Impl *> v;
    for (auto i : f.impls) if (!i->emulated || p.get("emulated")) v.push_back(i);
    if (v.empty()) v = f.impls;
    std::vector<Impl *> all = v, single;
    for (auto i : v) { i->reset(); if (!i->emulated && i->lanes == 1) single.push_back(i); }
    struct Out { Bytes a, b; int rc; size_t drawn; };
    std::map<int, std::pair<Bytes, Bytes>> keys;
    std::map<int, Bytes> cts;
    auto compare = [&](const char *what, const std::vector<Out> &o, const char *na, const char *nb) {
      for (size_t i = 0; i < o.size(); i++) { c.h(o[i].a); c.h(o[i].b); }
      for (size_t i = 1; i < o.size() && !c.failed; i++) {
        const char *d = o[i].rc != o[0].rc ? "status" : o[i].a != o[0].a ? na : o[i].b != o[0].b ? nb : o[i].drawn != o[0].drawn ? "amount of randomness drawn" : nullptr;
        if (d) c.fail("differ", "%s: %s and %s disagree in the %s (random bytes drawn: %zu and %zu)", what, v[0]->id.c_str(), v[i]->id.c_str(), d, o[0].drawn, o[i].drawn);
      }
    };
    for (auto &s : p.steps) {
      if (c.failed) return;
      int k = (int)s.at(0);
      std::vector<Out> out;
      if (s.op == "crash") {
        Impl *i = v[(u64)k % v.size()];
        i->reset();
        c.fault("crash and restart");
        continue;
      }
      if (s.op == "flood") {
        if (!keys.count(k)) continue;
        std::vector<Impl *> w;
        for (auto i : v) if (i->p.rev != 1 || s.at(2) < 20) w.push_back(i);
        Bytes ct, ss, s2, wct, wss;
        for (i64 n = 0; n < s.at(2) && !c.failed; n++)
          for (auto i : w) {
            OpEnv e = env(mix64(s.at(1), n), i->lanes, 32), d = env(mix64(s.at(1), n + 1), i->lanes, 0);
            int r1 = i->enc(ct, ss, keys[k].first, e), r2 = i->dec(s2, ct, keys[k].second, d);
            c.tick(1000);
            if (i == w[0]) { wct = ct; wss = ss; }
            if (r1 || r2 || ct != wct || ss != wss || s2 != wss) {
              c.fail("differ", "exchange %lld of the same history: %s and %s disagree", (long long)n + 1, w[0]->id.c_str(), i->id.c_str());
              break;
            }
          }
        c.h(ct);
        c.op("encapsulate", s.at(2) * w.size());
        c.op("decapsulate", s.at(2) * w.size());
        c.fault("long history before");
        continue;
      }
      // now and then every implementation draws from its own generator, all of them seeded alike
      u64 oseed = s.op == "key" ? (u64)s.at(1) : (u64)s.at(6);
      bool own = (s.op == "key" || s.op == "enc") && !(oseed & 7) && single.size() > 1;
      v = own ? single : all;
      if (own) c.probe("operations on the generators of the trees");
      auto generator = [&](Impl *i, OpEnv &e) {
        if (!own) return;
        i->seed_rng(seeded(mix64(oseed, 0x5eed5), 48).data());
        e.real_rng = true;
      };
      if (s.op == "key") {
        for (auto i : v) {
          OpEnv e = env(s.at(1), i->lanes, 96);
          generator(i, e);
          e.seed = mix64(e.seed, fnv(i->id.data(), i->id.size()));
          Out o;
          o.rc = i->keypair(o.a, o.b, e);
          o.drawn = e.drawn;
          out.push_back(o);
          c.op("keypair");
        }
        compare("key generation", out, "public key", "secret key");
        keys[k] = {out[(u64)s.at(1) % v.size()].a, out[(u64)s.at(1) % v.size()].b};  // the history goes on with any of them
        c.distinct(mix64((u64)p.get("fam"), s.at(1)));
      } else if (s.op == "enc") {
        if (!keys.count(k)) continue;
        Bytes pk = keys[k].first;
        if (s.at(2)) { damage(pk, s.at(3), s.at(4), s.at(5), seeded(s.at(5), pk.size())); c.fault("hostile public key"); }
        for (auto i : v) {
          OpEnv e = env(s.at(6), i->lanes, 32);
          generator(i, e);
          e.seed = mix64(e.seed, fnv(i->id.data(), i->id.size()));
          Out o;
          o.rc = i->enc(o.a, o.b, pk, e);
          o.drawn = e.drawn;
          out.push_back(o);
          c.op("encapsulate");
        }
        compare("encapsulation", out, "ciphertext", "shared secret");
        cts[(int)s.at(1)] = out[(u64)s.at(6) % v.size()].a;
        c.distinct(mix64(mix64((u64)p.get("fam"), s.at(6)), fnv(pk)));
      } else if (s.op == "dec") {
        if (!keys.count(k) || !cts.count((int)s.at(1))) continue;
        Bytes ct = cts[(int)s.at(1)], sk = keys[k].second;
        if (s.at(2)) { damage(ct, s.at(3), s.at(4), s.at(5), seeded(s.at(5), ct.size())); c.fault(damage_name(s.at(3))); }
        for (auto i : v) {
          OpEnv e = env(s.at(6), i->lanes, 0);
          e.seed = mix64(e.seed, fnv(i->id.data(), i->id.size()));
          Out o;
          o.rc = i->dec(o.a, ct, sk, e);
          o.drawn = e.drawn;
          out.push_back(o);
          c.op("decapsulate");
        }
        compare("decapsulation", out, "shared secret", "");
        c.distinct(mix64(mix64((u64)p.get("fam"), fnv(ct)), fnv(sk)));
      } else if (s.op == "rot") {
        if (!keys.count(k)) continue;
        Bytes &sk = keys[k].second, before = sk;
        damage(sk, s.at(2), s.at(3), s.at(4), seeded(s.at(4), sk.size()));
        c.fault((std::string("stored key: ") + damage_name(s.at(2))).c_str());
      }
      c.tick(600 * v.size());
    }
  }
};

// ======================================================================= C13

struct C13 : Scenario {
  Module *m = nullptr;
  bool setup(std::string &err) override {
    for (auto x : load_modules("plain", err)) if (x->lanes == 4) m = x;
    if (!m && err.empty()) err = "no four-way module";
    return m;
  }
  u64 quick_runs() override { return 14000; }
  const char *rule() override { return "distinct combinations of four lane inputs (honest, damaged or hostile per lane) given to one batch call"; }
  void generate(Rng &r, u64 index, bool thorough, Plan &p) override {
    int len = (int)r.range(3, thorough ? 30 : 12);
    p.add("key", {r.seed63(), (i64)r.below(16)});
    p.add("enc", {r.seed63(), (i64)r.below(24), 0, 0, 0, 0, 0, 0});
    if (index < 3) {  // so many batches in one process that counters of 16 bits come round
      p.add("flood", {r.seed63(), (i64)index, 65536 + r.range(16, 64)});
      return;
    }
    for (int i = 0; i < len; i++) {
      u64 x = r.below(20);
      i64 kd, a, b;
      random_damage(r, m->p.ctbytes(), kd, a, b);
      i64 near = r.chance(1, 3) ? r.seed63() : 0;
      if (x < 3) p.add("key", {r.seed63(), (i64)r.below(16), near});
      else if (x < 8) p.add("enc", {r.seed63(), (i64)r.below(24), (i64)r.below(16), kd, a, b, (i64)r.below(16), (i64)r.below(16), near});
      else if (x < 10) { p.add("enc", {r.seed63(), (i64)r.below(24), 0, kd, a, b, 1 + (i64)r.below(15), 0}); p.add("dec", {r.seed63(), (i64)r.below(24), r.chance(1, 2) ? 0 : (i64)r.below(16), kd, a, b, 0, 0, near}); }
      else if (x < 18) p.add("dec", {r.seed63(), (i64)r.below(24), (i64)r.below(16), kd, a, b, (i64)r.below(16), (i64)r.below(16), near});
      else p.add("crash", {});
      if (r.chance(1, 12)) { p.add("noisy", {r.seed63(), 1 + (i64)r.below(15)}); p.add("dec", {r.seed63(), (i64)r.below(24), 0, 0, 0, 0, 0, 0}); }
    }
  }
  void execute(const Plan &p, Ctx &c) override {
    const Params &q = m->p;
    Model mod(q);
    m->reset();
    Bytes pk[4], sk[4], ct[4], ss[4];
    int own[4] = {0, 1, 2, 3};  // whose key the ciphertext is for
    bool have = false, havect = false;
    RandSrc src;
    auto call = [&](const Bytes &rnd, const std::function<int()> &f) {
      src = RandSrc();
      src.want = rnd.data();
      src.n = rnd.size();
      g_rand = &src;
      m->m->hooks->randombytes = sim_randombytes;
      int rc = f();
      m->m->hooks->randombytes = nullptr;
      g_rand = nullptr;
      return rc;
    };
    static const int perms[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
                                     {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
    for (auto &s : p.steps) {
      if (c.failed) return;
      if (s.op == "crash") { m->reset(); c.fault("crash and restart"); continue; }
      Bytes rnd = drawn_bytes(s.at(0), 4 * 96);
      if (s.op == "flood") {
        if (!havect) continue;
        Bytes P, S, C, in[3], o1, o2, want;
        for (int L = 0; L < 4; L++) { P.insert(P.end(), pk[L].begin(), pk[L].end()); S.insert(S.end(), sk[L].begin(), sk[L].end()); C.insert(C.end(), ct[L].begin(), ct[L].end()); }
        C[q.ctbytes() + (u64)s.at(0) % q.ctbytes()] ^= 1;  // one lane is rejected
        rnd.resize(s.at(1) ? 128 : 384);
        for (int L = 0; L < 4; L++) {
          Bytes a, b;
          u8 x[32];
          if (s.at(1) == 0) { mod.keygen(&rnd[96 * L], &rnd[96 * L + 32], &rnd[96 * L + 64], a, b); want.insert(want.end(), a.begin(), a.end()); }
          else if (s.at(1) == 1) { mod.enc(&rnd[32 * L], pk[L].data(), a, x); want.insert(want.end(), a.begin(), a.end()); }
          else { mod.dec(&C[L * q.ctbytes()], sk[L].data(), x); want.insert(want.end(), x, x + 32); }
        }
        for (i64 n = 0; n < s.at(2) && !c.failed; n++) {
          o1.assign(want.size(), (u8)n);
          o2.assign(s.at(1) == 0 ? m->m->skbytes : m->m->ssbytes, (u8)n);
          int rc = call(rnd, [&] { return s.at(1) == 0 ? m->m->keypair(o1.data(), o2.data()) : s.at(1) == 1 ? m->m->enc(o1.data(), o2.data(), P.data()) : m->m->dec(o1.data(), C.data(), S.data()); });
          c.tick(2000);
          if (rc || o1 != want) c.fail("long-history", "a batch differs from the single runs when it is repeated for the %lldth time (operation %d, rc %d)", (long long)n + 1, (int)s.at(1), rc);
        }
        c.op("batch", s.at(2));
        c.fault("long history before");
        continue;
      }
      if (s.op == "key") {
        // some lanes draw the very same random bytes as their neighbour
        for (int L = 1; L < 4; L++) if ((s.at(1) >> L) & 1) { memcpy(&rnd[96 * L], &rnd[96 * (L - 1)], s.at(1) & 1 ? 96 : 32); c.fault("lanes with equal random bytes"); }
        if (s.at(2)) {  // a lane draws almost the same as another one
          Rng r(s.at(2));
          int j = (int)r.below(4), L = (j + 1 + (int)r.below(3)) & 3;
          memcpy(&rnd[96 * L], &rnd[96 * j], 96);
          nearly(rnd, 96 * L + 32 * r.below(3), 32, r);
          c.fault("lanes with nearly equal random bytes");
        }
        Bytes P(m->m->pkbytes), S(m->m->skbytes);
        int rc = call(rnd, [&] { return m->m->keypair(P.data(), S.data()); });
        c.op("keypair", 4);
        c.h(P);
        c.h(S);
        for (int L = 0; L < 4; L++) {
          Bytes wp, ws;
          mod.keygen(&rnd[96 * L], &rnd[96 * L + 32], &rnd[96 * L + 64], wp, ws);
          pk[L].assign(P.begin() + L * q.pkbytes(), P.begin() + (L + 1) * q.pkbytes());
          sk[L].assign(S.begin() + L * q.skbytes(), S.begin() + (L + 1) * q.skbytes());
          if (rc || pk[L] != wp || sk[L] != ws)
            return c.fail("keypair-lane", "lane %d of a batch key generation differs from the single run (rc %d, %s)", L, rc, pk[L] != wp ? "public key" : "secret key");
        }
        have = true;
        havect = false;
        for (int L = 0; L < 4; L++) own[L] = L;
        continue;
      }
      if (!have) continue;
      if (s.op == "noisy") {
        if (!havect) continue;
        for (int L = 0; L < 4; L++) {
          if (!((s.at(1) >> L) & 1)) continue;
          if (own[L] != L) continue;
          Bytes rn = marginal(mod, pk[L], sk[L], mix64(s.at(0), L), 6);
          u8 x[32];
          mod.enc(rn.data(), pk[L].data(), ct[L], x);
          ss[L].assign(x, x + 32);
          c.fault("lane with noise at the edge of correct decryption");
        }
        continue;
      }
      const int *pm = perms[(u64)s.at(1) % 24];
      i64 mask = s.at(2), dup = s.at(6), hostile = s.at(7);
      if (s.op == "enc") {
        Bytes in[4];
        for (int L = 0; L < 4; L++) {
          in[L] = pk[pm[L]];
          if ((dup >> L) & 1 && L) { in[L] = in[L - 1]; c.fault("lanes with equal keys"); }
          if ((mask >> L) & 1) { damage(in[L], s.at(3), s.at(4) + L, s.at(5), pk[(pm[L] + 1) & 3]); c.fault("lane with a damaged public key"); }
          if ((hostile >> L) & 1 && (mask >> L) & 1) { Rng r(s.at(5) + L); r.fill(in[L].data(), in[L].size()); c.fault("lane with an arbitrary public key"); }
        }
        rnd.resize(128);
        if (s.at(8)) {  // a lane gets almost the same as another one
          Rng r(s.at(8));
          int j = (int)r.below(4), L = (j + 1 + (int)r.below(3)) & 3;
          in[L] = in[j];
          memcpy(&rnd[32 * L], &rnd[32 * j], 32);
          size_t v = q.pkbytes() - 32;
          u64 part = r.below(3);
          if (part == 0) nearly(in[L], v, 32, r); else if (part == 1) nearly(in[L], 0, v, r); else nearly(rnd, 32 * L, 32, r);
          mask |= 1 << L;
          c.fault("lanes with nearly equal inputs");
        }
        Bytes P, C(m->m->ctbytes), K(m->m->ssbytes);
        for (int L = 0; L < 4; L++) P.insert(P.end(), in[L].begin(), in[L].end());
        int rc = call(rnd, [&] { return m->m->enc(C.data(), K.data(), P.data()); });
        c.op("encapsulate", 4);
        c.h(C);
        c.h(K);
        c.distinct(mix64(fnv(P), fnv(rnd)));
        for (int L = 0; L < 4; L++) {
          Bytes wc;
          u8 want[32];
          mod.enc(&rnd[32 * L], in[L].data(), wc, want);
          Bytes got(C.begin() + L * q.ctbytes(), C.begin() + (L + 1) * q.ctbytes());
          if (rc || got != wc || memcmp(&K[32 * L], want, 32))
            return c.fail("enc-lane", "lane %d of a batch encapsulation differs from the single run (rc %d, %s; damaged lanes mask %d)", L, rc, got != wc ? "ciphertext" : "shared secret", (int)mask);
          if (!mask) { own[pm[L]] = L && (dup >> L) & 1 ? own[pm[L - 1]] : pm[L]; ct[pm[L]] = got; ss[pm[L]].assign(&K[32 * L], &K[32 * L] + 32); }
        }
        if (!mask) havect = true;
      } else if (s.op == "dec") {
        if (!havect) continue;
        Bytes ic[4], is[4];
        for (int L = 0; L < 4; L++) {
          ic[L] = ct[pm[L]];
          is[L] = sk[own[pm[L]]];
          if ((dup >> L) & 1 && L) { ic[L] = ic[L - 1]; is[L] = is[L - 1]; c.fault("lanes with equal messages"); }
          if ((mask >> L) & 1) { damage(ic[L], s.at(3), s.at(4) + L, s.at(5), ct[(pm[L] + 1) & 3]); c.fault((std::string("lane: ") + damage_name(s.at(3))).c_str()); }
          if ((hostile >> L) & 1 && (mask >> L) & 1) { damage(is[L], s.at(5), s.at(4), s.at(3), sk[(pm[L] + 1) & 3]); c.fault("lane with a damaged secret key"); }
        }
        if (s.at(8)) {
          Rng r(s.at(8));
          int j = (int)r.below(4), L = (j + 1 + (int)r.below(3)) & 3;
          size_t sv = q.skvec(), pb = q.pkbytes();
          if (r.chance(2, 3)) ic[L] = ic[j];
          is[L] = is[j];
          switch (r.below(7)) {
            case 0: nearly(ic[L], 0, q.ctbytes(), r); break;
            case 1: nearly(is[L], 0, sv, r); break;
            case 2: nearly(is[L], sv, pb - 32, r); break;
            case 3: nearly(is[L], sv + pb - 32, 32, r); break;
            case 4: nearly(is[L], sv + pb, 32, r); break;
            case 5: nearly(is[L], sv + pb + 32, 32, r); break;
            default: break;
          }
          c.fault("lanes with nearly equal inputs");
        }
        Bytes S, C, K(m->m->ssbytes);
        for (int L = 0; L < 4; L++) { S.insert(S.end(), is[L].begin(), is[L].end()); C.insert(C.end(), ic[L].begin(), ic[L].end()); }
        int rc = call(rnd, [&] { return m->m->dec(K.data(), C.data(), S.data()); });
        c.op("decapsulate", 4);
        c.h(K);
        c.distinct(mix64(fnv(C), fnv(S)));
        for (int L = 0; L < 4; L++) {
          u8 want[32];
          bool acc = mod.dec(ic[L].data(), is[L].data(), want);
          c.probe(acc ? "lane accepted" : "lane rejected");
          if (rc || memcmp(&K[32 * L], want, 32))
            return c.fail("dec-lane", "lane %d of a batch decapsulation gave %s, alone it is %s (rc %d, %s; damaged lanes mask %d)", L, hex(&K[32 * L], 32, 32).c_str(),
                          hex(want, 32, 32).c_str(), rc, acc ? "accept" : "reject", (int)mask);
        }
      }
      c.tick(2000);
    }
  }
};

Register r1("C01", [] () -> Scenario * { return new C01; });
Register r2("C02", [] () -> Scenario * { return new C02; });
Register r3("C03", [] () -> Scenario * { return new C03; });
Register r4("C04", [] () -> Scenario * { return new C04; });
Register r13("C13", [] () -> Scenario * { return new C13; });
}  // namespace
