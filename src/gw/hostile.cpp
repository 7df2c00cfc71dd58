// Clients and broker connections nobody models, which send anything; modelled clients run along and must be served.
#include "model.h"
#include <errno.h>
#include <algorithm>
typedef MClient MC;
static const int TYPES[] = {sn::ADVERTISE, sn::SEARCHGW, sn::GWINFO, sn::CONNECT, sn::CONNACK, sn::WILLTOPICREQ, sn::WILLTOPIC, sn::WILLMSGREQ, sn::WILLMSG, sn::REGISTER, sn::REGACK, sn::PUBLISH, sn::PUBACK, sn::PUBCOMP, sn::PUBREC, sn::PUBREL, sn::SUBSCRIBE, sn::SUBACK, sn::UNSUBSCRIBE, sn::UNSUBACK, sn::PINGREQ, sn::PINGRESP, sn::DISCONNECT, sn::WILLTOPICUPD, sn::WILLTOPICRESP, sn::WILLMSGUPD, sn::WILLMSGRESP};
static const int DEEP[] = {sn::CONNECT, sn::CONNECT, sn::WILLTOPIC, sn::WILLMSG, sn::REGISTER, sn::REGACK, sn::PUBLISH, sn::PUBLISH, sn::PUBLISH, sn::PUBACK, sn::PUBCOMP, sn::PUBREC, sn::PUBREL, sn::SUBSCRIBE, sn::SUBSCRIBE, sn::UNSUBSCRIBE, sn::PINGREQ, sn::DISCONNECT};

static Bytes bytesOf(Rng& a, int n) { Bytes b(n); for (auto& x : b) x = (uint8_t)a.next(); return b; }
static Str word(Rng& a, int n) { Str s; while (n--) s += (char)('a' + a.below(26)); return s; }
static int len(Rng& a) { switch (a.below(10)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return a.range(240, 260); case 4: return a.range(0, 1030); case 5: return a.range(60, 70); default: return a.range(1, 30); } }
static const char* odd[] = {"", "a", "ab", "#", "+", "a/#", "+/+", "a/+/b", "/", "//", "a//b", "#/a", "a#", "a+b", "$SYS/x", "%s%n%s", "t/1", "t/2", "t/3", "t/4", "abc"};
bool Model::oddTopic(const Str& t) { for (auto o : odd) if (t == o) return true; return t.size() <= 2; }
static Bytes topicName(Rng& a) {
    if (a.chance(70)) return sn::B(odd[a.below(21)]);
    Bytes b = bytesOf(a, len(a)); if (a.chance(60)) for (auto& x : b) x = "abc/+#%$\0\xff"[x % 10];
    return b;
}
Bytes Model::mutate(Bytes b) {
    Rng& a = ar; int n = 1 + a.below(4);
    while (n--) switch (a.below(7)) {
    case 0: if (!b.empty()) b[a.below((uint32_t)b.size())] = (uint8_t)a.next(); break;
    case 1: if (!b.empty()) b[a.below((uint32_t)b.size())] ^= 1 << a.below(8); break;
    case 2: if (!b.empty()) b.resize(a.below((uint32_t)b.size())); break;
    case 3: { Bytes x = bytesOf(a, a.range(1, 20)); b.insert(b.begin() + a.below((uint32_t)b.size() + 1), x.begin(), x.end()); break; }
    case 4: if (!b.empty()) b[0] = (uint8_t)a.below(6); break;
    case 5: if (b.size() > 3) { b[0] = 1; b[1] = a.chance(50) ? 0 : (uint8_t)a.next(); b[2] = (uint8_t)a.next(); } break;
    default: if (b.size() > 4) { size_t i = a.below((uint32_t)b.size()), k = 1 + a.below((uint32_t)(b.size() - i)); b.erase(b.begin() + i, b.begin() + i + k); } }
    return b;
}
Bytes Model::attackPacket(Attacker& t) {
    Rng& a = ar; sn::Pkt p; p.type = a.chance(75) ? DEEP[a.below(sizeof DEEP / sizeof *DEEP)] : TYPES[a.below(sizeof TYPES / sizeof *TYPES)];
    auto small = [&](int hi) { return a.chance(85) ? (int)a.below((uint32_t)hi) : a.chance(30) ? 0xFFFF : (int)a.below(0x10000); };
    p.dup = a.chance(15); p.qos = a.below(4); p.retain = a.chance(20); p.will = a.chance(25); p.clean = a.chance(60); p.tit = a.chance(92) ? a.below(3) : 3;
    p.topicId = small(8); p.msgId = small(6); p.rc = a.chance(60) ? 0 : a.below(6); p.duration = a.chance(50) ? -1 : small(200); p.gwId = a.below(256); p.radius = a.below(256); p.protocol = a.chance(95) ? 1 : a.below(256);
    if (p.type == sn::CONNECT || p.type == sn::ADVERTISE) p.duration = small(100);
    p.name = topicName(a); p.data = bytesOf(a, len(a));
    if (p.type == sn::CONNECT || p.type == sn::PINGREQ) { p.name = sn::B(a.chance(90) ? a.pick(t.ids) : ::word(a, a.range(1, 80))); if (a.chance(5)) p.name = bytesOf(a, len(a)); if (p.type == sn::PINGREQ && a.chance(50)) p.name.clear(); }
    if (p.type == sn::PUBLISH && p.tit == 2) p.name = bytesOf(a, 2);
    if (p.type == sn::PUBLISH && a.chance(3)) p.data = bytesOf(a, a.range(1000, 1100));
    Bytes b = sn::enc(p);
    if (a.chance(6)) { Bytes x = bytesOf(a, a.below(a.chance(20) ? 1500 : 12)); if (x.size() > 1 && a.chance(70)) { x[0] = (uint8_t)x.size(); x[1] = a.chance(70) ? TYPES[a.below(27)] : (uint8_t)a.next(); } b = x; }
    if (a.chance(20)) b = mutate(b);
    if (a.chance(4) && b.size() > 2 && b.size() < 250 && b[0] == b.size()) { Bytes x = {1, (uint8_t)((b.size() + 2) >> 8), (uint8_t)(b.size() + 2)}; x.insert(x.end(), b.begin() + 1, b.end()); b = x; } // the long form for a short packet
    if (a.chance(t.fwd ? 92 : 5)) { Bytes nd = a.chance(85) ? sn::B(::word(a, 1 + a.below(2))) : a.chance(50) ? Bytes() : bytesOf(a, a.range(1, 252)); if (nd.size() > 4 || nd.empty()) {} b = mk::encap(nd, b, a.below(256)); if (a.chance(8)) b = mk::encap(nd.size() < 200 ? nd : Bytes(), b, 1); if (a.chance(8)) b = mutate(b); }
    return b;
}
bool Model::opAttack() {
    if (att.empty()) return false;
    int k = ar.chance(15) ? ar.range(5, 25) : ar.range(1, 5);
    for (; k > 0 && attackBudget > 0; k--) {
        Attacker& t = att[ar.below((uint32_t)att.size())]; Bytes b = attackPacket(t); int rep = ar.chance(6) ? ar.range(2, 12) : 1; bool mc = ar.chance(4); NetAddr from = t.a;
        if (ar.chance(4)) { from = strays[ar.below((uint32_t)strays.size())]; }
        for (; rep > 0 && attackBudget > 0; rep--, attackBudget--) if (!w.alt) { via(0, from, [this, from, b, mc] { w.sendRaw(from, b, mc); }); w.count("hostile_datagrams"); }
    }
    return true;
}
static Bytes mqFrame(uint8_t h, const Bytes& body) { return mq::frame(h, body); }
Bytes Model::brokerBytes(int kind) {
    Rng& a = ar; Bytes b, t;
    auto mid = [&] { int m = a.chance(80) ? a.range(0, 6) : (int)a.below(0x10000); Bytes x; mq::u16(x, m); return x; };
    if (kind == 0) { // what a broker may send
        mq::Pkt p;
        switch (a.below(9)) {
        case 0: case 1: case 2: case 3: { p = mk::mpub(sn::S(topicName(a)), a.below(3), a.range(1, 8), bytesOf(a, len(a)), a.chance(20), a.chance(20)); if (p.topic.empty()) p.topic = sn::B("t"); break; }
        default: static const int at[] = {mq::PUBACK, mq::PUBREC, mq::PUBREL, mq::PUBCOMP, mq::SUBACK, mq::UNSUBACK, mq::PINGRESP}; p = mk::mack(at[a.below(7)], a.range(1, 6), 0); if (p.type == mq::SUBACK) p.rc = a.chance(30) ? 0x80 : a.below(3); }
        return mq::enc(p);
    }
    switch (a.below(12)) {
    case 0: case 1: { // PUBLISH with odd contents
        Bytes tn = a.chance(8) ? bytesOf(a, a.range(300, 66000)) : topicName(a); if (tn.size() > 65535) tn.resize(65535); int q = a.below(4); Bytes body; mq::str(body, tn); if (q) { Bytes m = mid(); sn::cat(body, m); } Bytes pl = bytesOf(a, a.chance(5) ? a.range(1000, 80000) : len(a)); sn::cat(body, pl); b = mqFrame((uint8_t)(0x30 | a.below(2) << 3 | q << 1 | a.below(2)), body); break; }
    case 2: { Bytes body; mq::u16(body, a.below(0x10000)); sn::cat(body, bytesOf(a, a.below(12))); b = mqFrame((uint8_t)(0x30 | a.below(16)), body); break; } // topic length beyond the packet
    case 3: b = mqFrame((uint8_t)a.next(), bytesOf(a, a.below(8))); break;      // any type, any flags, short body
    case 4: b = mqFrame((uint8_t)(a.below(16) << 4 | (a.chance(70) ? 0 : a.below(16))), {}); break; // no body
    case 5: { Bytes body = mid(); if (a.chance(60)) sn::cat(body, bytesOf(a, a.below(5))); b = mqFrame((uint8_t)(a.range(2, 13) << 4 | (a.chance(50) ? 2 : 0)), body); break; }
    case 6: b = {0x20, 2, (uint8_t)a.below(3), (uint8_t)(a.chance(50) ? 0 : a.next())}; break; // another CONNACK
    case 7: { b = {(uint8_t)a.next()}; int n = a.range(1, 8); while (n--) b.push_back((uint8_t)(0x80 | a.next())); if (a.chance(50)) b.push_back((uint8_t)a.below(128)); break; } // endless remaining length
    case 8: { b = {(uint8_t)(a.below(16) << 4), 0xff, 0xff, (uint8_t)(a.chance(50) ? 0x7f : 0xff)}; if (b[3] == 0xff) b.push_back(0x7f); sn::cat(b, bytesOf(a, a.chance(30) ? a.range(1000, 20000) : a.below(40))); break; } // huge
    case 9: { Bytes body; mq::str(body, sn::B("MQTT")); sn::cat(body, bytesOf(a, a.below(30))); b = mqFrame((uint8_t)((a.chance(50) ? 1 : 8 + a.below(7)) << 4), body); break; } // client-to-server packets
    case 10: b = bytesOf(a, a.range(1, a.chance(20) ? 3000 : 40)); break;
    default: b = brokerBytes(0); b = mutate(b); }
    return b;
}
bool Model::opBrokerAttack() {
    std::vector<int> open; for (auto& c : w.conns) if (w.ignoreConn.count(c.id) && c.open && !c.refused && c.npkts) open.push_back(c.id);
    if (open.empty()) return false;
    if (stallBudget <= 0) return false;
    int cn = open[ar.below((uint32_t)open.size())]; NetAddr k; k.ip = (uint32_t)cn;
    int n = 1 + ar.below(6); bool bad = false;
    while (n--) {
        bool evil = brokerEvil && ar.chance(60); Bytes b = brokerBytes(evil ? 1 : 0); bad |= evil;
        if (evil && ar.chance(15) && b.size() > 1) b.resize(1 + ar.below((uint32_t)b.size() - 1)); // and nothing follows
        int cut = ar.chance(20) && b.size() > 1 ? 1 + ar.below((uint32_t)b.size() - 1) : 0;
        if (w.alt) continue;
        w.count("hostile_broker_packets");
        auto send = [this, cn](const Bytes& x) { NetAddr kk; kk.ip = (uint32_t)cn; via(1, kk, [this, cn, x] { if (sim::connOpen(cn)) w.sendMqRaw(cn, x); }); };
        if (cut) { send(Bytes(b.begin(), b.begin() + cut)); send(Bytes(b.begin() + cut, b.end())); } else send(b);
    }
    if (bad) stallBudget--;
    if (ar.chance(brokerEvil ? 15 : 5) && !w.alt) { bool reset = ar.chance(50); w.count("hostile_broker_close"); via(1, k, [this, cn, reset] { if (sim::connOpen(cn)) { w.note("BR c%d closed by the broker%s", cn, reset ? " (reset)" : ""); sim::brokerClose(cn, reset); } }); }
    return true;
}
void Model::hostile(int n) {
    w.hostile = true; sawGwinfo = true; ar = Rng(w.r.next());
    for (int i = 0; i < n; i++) { Attacker t; t.a = addr(); int k = 1 + ar.below(4); for (int j = 0; j < k; j++) { Str s = "a" + word(1 + ar.below(6)); if (!byId.count(s)) t.ids.push_back(s); } t.ids.push_back("x" + std::to_string(i)); w.ignoreAddr.insert(t.a); att.push_back(t); }
    for (int i = 0; i < 6; i++) { NetAddr a = addr(); strays.push_back(a); w.ignoreAddr.insert(a); }
    // a broker for them
    w.onForeign = [this](MqOut& o) {
        int cn = o.conn; Rng& a = ar; auto say = [this, cn](const Bytes& b) { w.later.push_back([this, cn, b] { if (sim::connOpen(cn)) w.sendMqRaw(cn, b); }); };
        if (brokerEvil && a.chance(12) && stallBudget > 0) { stallBudget--; say(brokerBytes(1)); w.count("hostile_broker_packets"); return; }
        if (a.chance(8)) return; // no answer
        if (brokerEvil && a.chance(4)) { bool reset = a.chance(50); w.later.push_back([cn, reset] { if (sim::connOpen(cn)) sim::brokerClose(cn, reset); }); return; }
        switch (o.p.type) {
        case mq::CONNECT: say(mq::enc(mk::mack(mq::CONNACK, 0, a.chance(90) ? 0 : 1 + a.below(5)))); break;
        case mq::PUBLISH: if (o.p.qos == 1) say(mq::enc(mk::mack(mq::PUBACK, o.p.msgId))); else if (o.p.qos == 2) say(mq::enc(mk::mack(mq::PUBREC, o.p.msgId))); break;
        case mq::PUBREL: say(mq::enc(mk::mack(mq::PUBCOMP, o.p.msgId))); break;
        case mq::PUBREC: say(mq::enc(mk::mack(mq::PUBREL, o.p.msgId))); break;
        case mq::SUBSCRIBE: say(mq::enc(mk::mack(mq::SUBACK, o.p.msgId, a.chance(90) ? (int)a.below(3) : 0x80))); if (a.chance(40) && o.p.topic.size() > 0) say(mq::enc(mk::mpub(sn::S(o.p.topic), a.below(3), a.range(1, 9), bytesOf(a, len(a))))); break;
        case mq::UNSUBSCRIBE: say(mq::enc(mk::mack(mq::UNSUBACK, o.p.msgId))); break;
        case mq::PINGREQ: say(mq::enc(mk::mack(mq::PINGRESP, 0))); break;
        case mq::DISCONNECT: if (a.chance(50)) w.later.push_back([cn] { if (sim::connOpen(cn)) sim::brokerClose(cn, false); }); break;
        }
    };
}
// ---------------------------------------------------------------- scenarios
Str canaryId(Rng& r, int i) { Str s = "canary" + std::to_string(i); while (s.size() < 15) s += (char)('a' + r.below(26)); return s; }
static void hostileCfg(Cfg& c, Rng& r) {
    c.maxClients = 30 + (r.chance(50) ? 120 : 0); c.extra = "";
    int kind = r.below(6); // plain, predefined, forwarder, QoS-1, authentication, mixed
    c.fwd = kind == 2 || kind == 5; c.qosm1 = kind == 3 || kind == 5; c.predef = kind == 1 || kind == 5; c.auth = kind == 4; c.clientsFile = kind >= 2;
    if (c.fwd) for (int i = r.range(1, 2); i > 0; i--) c.clients.push_back("fwd" + std::to_string(i) + ",10.9.0." + std::to_string(10 + i) + ":4000,forwarder");
    if (c.qosm1) for (int i = r.range(1, 2); i > 0; i--) c.clients.push_back("qm" + std::to_string(i) + ",10.9.1." + std::to_string(10 + i) + ":4001,QoS-1");
    if (c.auth) { for (int i = 0; i < 3; i++) c.clients.push_back(canaryId(r, i) + ",10.9.2." + std::to_string(10 + i) + ":4002"); for (int i = 0; i < 2; i++) c.clients.push_back("aatt" + std::to_string(i) + ",10.9.3." + std::to_string(10 + i) + ":4003"); }
    if (c.predef) for (int i = 1; i < 8; i++) c.topics.push_back((i < 5 ? Str("*") : "x" + std::to_string(i % 3)) + ",pre/" + std::to_string(i) + "," + std::to_string(i));
}
static NetAddr at(const Str& l) { NetAddr a; unsigned b[4] = {0}, p = 0; sscanf(l.c_str() + l.find(',') + 1, "%u.%u.%u.%u:%u", b, b + 1, b + 2, b + 3, &p); a.ip = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; a.port = (uint16_t)p; return a; }
static void canaries(Model& md) {
    World& w = md.w; Rng& r = w.r; int n = r.range(1, 3), k = 0;
    for (auto& l : w.cfg.clients) if (l.find("forwarder") != Str::npos) { md.fwds.push_back(at(l)); md.used.insert(at(l)); w.fwdAddr.insert(at(l)); }
    if (w.cfg.auth) { for (auto& l : w.cfg.clients) if (l.substr(0, 6) == "canary") md.add(l.substr(0, l.find(',')), at(l)); }
    else for (; k < n; k++) { if (!md.fwds.empty() && r.chance(40)) { MC* c = md.add(canaryId(r, k), NetAddr()); md.byAddr.erase(NetAddr()); Bytes nd = sn::B("canarynode" + std::to_string(k)); NetAddr v = md.addr(); w.putBehind(v, r.pick(md.fwds), nd); c->a = v; c->fwd = true; md.byAddr[v] = c; } else md.add(canaryId(r, k), md.addr()); }
    md.hostile(r.range(1, 4));
    for (auto& l : w.cfg.clients) { Model::Attacker t; t.a = at(l); t.ids.push_back(l.substr(0, l.find(','))); t.ids.push_back("y"); if (l.substr(0, 6) == "canary") continue; t.fwd = l.find("forwarder") != Str::npos; if (!t.fwd) w.ignoreAddr.insert(t.a); md.att.push_back(t); md.used.insert(t.a); }
}
static Mix hostileMix(Rng& r, const char* prop) { Mix m; m.batch = 2 + r.below(10); m.progress = 12; m.pub = 4; m.down = 4; m.downNew = 1; m.sub = 2; m.unsub = 1; m.reg = 2; m.ping = 1; m.disc = 1; m.reconnect = 2; m.sleep = 1; m.wake = 2; m.downSleep = 2; m.maxPayload = 200; m.claim = prop; return m; }
SCENARIO(hostilesn, "C05", hostileCfg, "well-behaved clients at work while other addresses send valid packets in any order, mutated packets, random bytes, bogus encapsulations; the same case without them is the reference", true) {
    Mix m = hostileMix(w.r, "C05"); m.attack = 25; m.brokerAttack = 3; Model md(w, m); canaries(md); md.connectAll(); md.runRounds(w.r.range(5, 14)); w.pass();
}
SCENARIO(hostilemq, "C06", hostileCfg, "well-behaved clients at work while the broker sends malformed, truncated, oversized, misplaced packets and closes or resets on the connections of other clients; the same case without is the reference", true) {
    Mix m = hostileMix(w.r, "C06"); m.attack = 10; m.brokerAttack = 14; Model md(w, m); md.brokerEvil = true; canaries(md); md.connectAll(); md.runRounds(w.r.range(5, 14)); w.pass();
}

// ---- shutdown, and gateways with all kinds of configuration
static void anyCfg(Cfg& c, Rng& r) {
    hostileCfg(c, r);
    if (r.chance(35) && !c.auth) { c.aggr = true; c.gwName = "Agg"; }
    if (r.chance(40) && !c.auth) c.maxClients = r.range((int)c.clients.size() + 1, (int)c.clients.size() + (r.chance(50) ? 1 : 5));
}
SCENARIO(shutdown, "C25", anyCfg, "SIGINT at a random scheduling point of any configuration and workload (idle, busy, flooded, broker refusing or silent); main has to return and the static objects have to be destroyed") {
    Rng& r = w.r; Mix m = hostileMix(r, "C25"); m.attack = 25; m.brokerAttack = 10; Model md(w, m); md.brokerEvil = r.chance(40);
    bool refuse = r.chance(25); if (refuse) { int k = 1 + r.below(6); w.connectPolicy = [&w, k](int i) { return i % k == 0 ? ECONNREFUSED : 0; }; }
    bool modelled = !w.cfg.aggr && !refuse && w.cfg.maxClients > 20 && r.chance(50); int early = r.below(8);
    if (modelled) { canaries(md); if (early) { md.connectAll(); md.runRounds(r.below(6)); } }
    else { md.hostile(r.range(1, 6)); w.onlineMq = [&](MqOut& o) { w.ignoreConn.insert(o.conn); return true; }; w.onlineSn = [](SnOut&) { return true; };
        if (early) for (int i = r.below(8); i > 0; i--) { md.busy.clear(); md.attackBudget = 60; md.stallBudget = 2; for (int k = 1 + r.below(20); k > 0; k--) if (!md.opAttack() || r.chance(25)) md.opBrokerAttack(); md.merge(); w.policy(r.below(300)); w.settle(); w.policy(0); } }
    if (r.chance(20)) w.advance(r.range(1, 2000) * 1000000ll);
    // what is under way when the signal comes
    w.hostile = true; w.onlineSn = [](SnOut&) { return true; };
    static const int load[] = {0, 1, 5, 30, 150, 400}; int n = load[r.below(6)];
    md.busy.clear(); md.attackBudget = 3 * n; md.stallBudget = 3; if (!modelled || n) for (int i = 0; i < n; i++) if (r.chance(80)) md.opAttack(); else md.opBrokerAttack();
    if (modelled && r.chance(60)) { for (int i = 0; i < 200; i++) { NetAddr a = r.pick(md.cs)->a; md.viaSn(a, r.chance(50) ? mk::pingreq() : mk::publish(2, 0, "ab", 1 + i, r.below(2), md.bytes(r.below(20)))); } }
    md.merge(); bool flood = r.chance(40); auto burst = w.later; size_t at = r.below((uint32_t)w.later.size() + 1);
    if (flood) { w.later.clear(); w.later.push_back([&w, burst, at] { size_t k = 0; for (auto& f : burst) { if (k++ == at) w.sigint(); f(); } if (at >= burst.size()) w.sigint(); }); }
    else w.later.insert(w.later.begin() + at, [&w] { w.sigint(); });
    static const int st[] = {0, 3, 30, 300, 1000}; w.policy(st[r.below(5)]); if (r.chance(50)) sim::setStarve(99, r.chance(50) ? 100 : 2000); bool drift = r.chance(60); if (drift) w.noAdvert = true, sim::setDrift(r.range(1, 100), r.chance(50) ? 1000 : 100000); // the processors are busy while time passes
    for (int i = 0; i < 100 && w.sigAt < 0; i++) w.advance(1000000);
    if (w.sigAt < 0) w.fail("C25", "harness: SIGINT was not sent");
    w.waitMain(90000000);
    if (!w.mainReturned) w.fail("C25", "90 s after SIGINT the gateway still runs: " + sim::threadDump() + ", stop events may be lost");
    int64_t d = sim::nowUs() - w.sigAt; if (d > (drift ? 60000000 : 15000000)) w.fail("C25", "the gateway ended " + std::to_string(d / 1000) + " ms after SIGINT");
    w.count("shutdown_checked"); w.count(d < 2000000 ? "ended_in_2s" : d < 4000000 ? "ended_in_4s" : d < 8000000 ? "ended_in_8s" : "ended_in_15s"); w.count("tasks_left_after_main", sim::aliveThreads()); w.state(fnv("sd", 2, n * 100 + (int)(d / 1000000) * 7 + flood + 2 * modelled));
    w.exitMain();
}

static void oneCfg(Cfg& c, Rng& r) { c.maxClients = r.range(1, 2); if (r.chance(30)) { c.aggr = true; c.gwName = "Agg"; c.clientsFile = true; } }
SCENARIO(shutdownfull, "C25", oneCfg, "SIGINT while the few admitted clients keep the event queue of the gateway at its limit, threads starve and time passes; main has to return") {
    Rng& r = w.r; Mix m; m.claim = "C25"; Model md(w, m); w.hostile = true; w.onlineSn = [](SnOut&) { return true; }; w.onlineMq = [&](MqOut& o) { w.ignoreConn.insert(o.conn); return true; };
    std::vector<NetAddr> as; for (int i = w.cfg.maxClients; i > 0; i--) { NetAddr a = md.addr(); w.ignoreAddr.insert(a); as.push_back(a); md.viaSn(a, mk::connect("flood" + std::to_string(i), 60)); }
    w.onForeign = [&](MqOut& o) { int cn = o.conn; if (o.p.type == mq::CONNECT) w.later.push_back([&w, cn] { if (sim::connOpen(cn)) w.sendMqRaw(cn, mq::enc(mk::mack(mq::CONNACK, 0, 0))); }); };
    md.merge(); w.settle();
    for (int i = r.range(50, 500); i > 0; i--) { NetAddr a = r.pick(as); int k = r.below(4); md.viaSn(a, k == 0 ? mk::pingreq() : k == 1 ? mk::reg(0, 1 + i, "t/" + std::to_string(i % 7)) : k == 2 ? mk::regack(1, 1 + i, 0) : mk::publish(2, 0, "ab", 1 + i, r.below(2), md.bytes(r.below(20)))); }
    md.merge(); auto burst = w.later; w.later.clear();
    w.later.push_back([burst] { for (auto& f : burst) f(); }); w.later.push_back([&w] { w.sigint(); });
    static const int st[] = {1, 3, 10, 30}; w.policy(st[r.below(4)]);
    sim::setStarve(99, r.chance(50) ? 200 : 2000); w.noAdvert = true; sim::setDrift(r.range(20, 400), r.chance(50) ? 100000 : 1000000);
    for (int i = 0; i < 100 && w.sigAt < 0; i++) w.advance(1000000);
    if (w.sigAt < 0) w.fail("C25", "harness: SIGINT was not sent");
    w.waitMain(120000000);
    if (!w.mainReturned) w.fail("C25", "two minutes after SIGINT the gateway still runs: " + sim::threadDump());
    w.count("shutdown_checked"); w.state(fnv("sf", 2, (sim::nowUs() - w.sigAt) / 1000000));
    w.exitMain();
}
