// C27: cycles of traffic that return to the same state are repeated; the heap and the sockets of the gateway must not grow.
#include "model.h"
#include <errno.h>
#include <string.h>
static Str rword(Rng& r, int n) { Str s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz0123456789"[r.below(36)]; return s; }
static void leakCfg(Cfg& c, Rng& r) {
    c.keepAlive = r.chance(30) ? r.range(2, 20) : 900; if (r.chance(30)) { c.login = "user"; c.password = "secret"; }
    c.aggr = r.chance(15); c.fwd = r.chance(35); c.qosm1 = r.chance(35); c.predef = r.chance(35); c.auth = !c.aggr && r.chance(15); c.clientsFile = true; c.maxClients = r.chance(30) ? 8 : 30; if (c.aggr) c.gwName = "Agg";
    if (c.fwd) c.clients.push_back("fwd,10.9.0.10:4000,forwarder");
    if (c.qosm1) c.clients.push_back("qm,10.9.0.11:4001,QoS-1");
    if (c.auth) for (int i = 0; i < 3; i++) c.clients.push_back("cl" + std::to_string(i) + ",10.9.1." + std::to_string(20 + i) + ":5000");
    if (c.predef) { c.topics.push_back("*,pre/all,3"); c.topics.push_back("cl0,pre/one,4"); }
}
namespace {
struct LC { Str id; NetAddr a, b; bool fwd = false, willNow = false, mute = false; int conn = -1; Str wt = "will/t"; Bytes wm; std::map<Str, int> tid; Str regName; bool rejectReg = false; };
struct Leak {
    World& w; Rng& r; std::vector<LC> cs; int mid = 0, bmid = 0; bool muteBroker = false; int refuse = 0, rejectConn = 0, rejectSub = 0; uint64_t seen = 0; int aggrConn = -1; std::map<int, bool> alive;
    Leak(World& w) : w(w), r(w.r) {}
    void say(LC& c, const sn::Pkt& p) { NetAddr a = c.a; w.later.push_back([this, a, p] { w.sendSn(a, p); }); }
    void mq(int cn, const mq::Pkt& p) { w.later.push_back([this, cn, p] { if (cn >= 0 && sim::connOpen(cn)) w.sendMq(cn, p); }); }
    int m() { mid = mid % 65000 + 1; return mid; }
    int conn(LC& c) { return w.cfg.aggr ? aggrConn : c.conn; }
    LC* at(const NetAddr& a) { for (auto& c : cs) if (c.a == a) return &c; return nullptr; }
    bool sn(SnOut& o) {
        seen++; LC* c = at(o.to); if (!c) return true;
        switch (o.p.type) {
        case sn::REGISTER: if (!c->mute) say(*c, mk::regack(o.p.topicId, o.p.msgId, c->rejectReg ? 2 : 0)); break;
        case sn::PUBLISH: if (o.p.qos == 1) say(*c, mk::ack(sn::PUBACK, o.p.msgId, o.p.topicId)); else if (o.p.qos == 2) say(*c, mk::ack(sn::PUBREC, o.p.msgId)); break;
        case sn::PUBREL: say(*c, mk::ack(sn::PUBCOMP, o.p.msgId)); break;
        case sn::PUBREC: say(*c, mk::ack(sn::PUBREL, o.p.msgId)); break;
        case sn::WILLTOPICREQ: if (!c->mute) say(*c, mk::willtopic(c->wt, 1, true)); break;
        case sn::WILLMSGREQ: if (!c->mute) say(*c, mk::willmsg(c->wm)); break;
        case sn::REGACK: if (o.p.rc == 0) c->tid[c->regName] = o.p.topicId; break;
        }
        return true;
    }
    bool mqo(MqOut& o) {
        seen++; int cn = o.conn; if (muteBroker && o.p.type != mq::CONNECT) return true;
        switch (o.p.type) {
        case mq::CONNECT: { for (auto& c : cs) if (c.id == sn::S(o.p.clientId)) c.conn = cn; if (w.cfg.aggr && sn::S(o.p.clientId) == w.cfg.gwName + "_Aggregater") aggrConn = cn; int rc = 0; if (rejectConn) { rejectConn--; rc = 2; } mq(cn, mk::mack(mq::CONNACK, 0, rc)); break; }
        case mq::PUBLISH: if (o.p.qos == 1) mq(cn, mk::mack(mq::PUBACK, o.p.msgId)); else if (o.p.qos == 2) mq(cn, mk::mack(mq::PUBREC, o.p.msgId)); break;
        case mq::PUBREL: mq(cn, mk::mack(mq::PUBCOMP, o.p.msgId)); break;
        case mq::PUBREC: mq(cn, mk::mack(mq::PUBREL, o.p.msgId)); break;
        case mq::SUBSCRIBE: mq(cn, mk::mack(mq::SUBACK, o.p.msgId, rejectSub ? 0x80 : 1)); break;
        case mq::UNSUBSCRIBE: mq(cn, mk::mack(mq::UNSUBACK, o.p.msgId)); break;
        case mq::PINGREQ: mq(cn, mk::mack(mq::PINGRESP, 0)); break;
        case mq::DISCONNECT: w.later.push_back([cn] { if (sim::connOpen(cn)) sim::brokerClose(cn, false); }); break;
        }
        return true;
    }
    void connect(LC& c, bool clean, bool will) { c.willNow = will; say(c, mk::connect(c.id, 60, clean, will)); w.settle(); }
};
}
SCENARIO(leak, "C27", leakCfg, "random cycles of complete exchanges, refusals and malformed packets repeated; heap and sockets of the gateway compared at the end of the cycles") {
    Rng& r = w.r; Leak l(w); w.hostile = true; w.settleUs = 1200000; w.noAdvert = true;
    w.onlineSn = [&](SnOut& o) { return l.sn(o); }; w.onlineMq = [&](MqOut& o) { w.ignoreConn.insert(o.conn); return true; }; w.onForeign = [&](MqOut& o) { l.mqo(o); };
    w.connectPolicy = [&](int) { if (l.refuse) { l.refuse--; return ECONNREFUSED; } return 0; };
    NetAddr fwd; fwd.ip = 10u << 24 | 9 << 16 | 10; fwd.port = 4000; NetAddr qm = fwd; qm.ip++; qm.port = 4001; NetAddr stray; stray.ip = 10u << 24 | 77 << 16 | 9; stray.port = 999;
    if (w.cfg.fwd) w.fwdAddr.insert(fwd);
    int n = r.range(1, 3); for (int i = 0; i < n; i++) {
        LC c; c.id = "cl" + std::to_string(i); c.a.ip = 10u << 24 | 9 << 16 | 1 << 8 | (uint32_t)(20 + i); c.a.port = 5000; c.b = c.a; c.b.port = 5001;
        if (w.cfg.fwd && !w.cfg.auth && r.chance(60)) { c.fwd = true; c.a.ip = 172u << 24 | (uint32_t)i; w.putBehind(c.a, fwd, sn::B("node" + std::to_string(i))); c.b = c.a; c.b.ip |= 0x100; w.putBehind(c.b, fwd, sn::B("edon" + std::to_string(i))); }
        for (int k = r.range(1, 60); k > 0; k--) c.wm.push_back((uint8_t)k); l.cs.push_back(c); }
    auto bytes = [](Rng& r, int n) { Bytes b; while (n-- > 0) b.push_back((uint8_t)r.next()); return b; };
    // ---- the parts of a cycle
    struct Part { const char* what; std::function<void(LC&, Rng&)> f; }; std::vector<Part> all;
    auto part = [&](const char* what, std::function<void(LC&, Rng&)> f) { all.push_back({what, f}); };
    part("publish on short topics", [&](LC& c, Rng& q) { for (int i = 0; i < 3; i++) { l.say(c, mk::publish(2, 0, "ab", l.m(), i, bytes(q, q.below(300)))); w.settle(); } });
    part("register and publish", [&](LC& c, Rng& q) { c.regName = "reg/" + rword(q, 1 + q.below(20)); l.say(c, mk::reg(0, l.m(), c.regName)); w.settle(); for (int i = 0; i < 3; i++) { l.say(c, mk::publish(0, c.tid[c.regName], "", l.m(), i, bytes(q, q.below(800)))); w.settle(); } });
    part("subscribe and unsubscribe", [&](LC& c, Rng& q) { Str t = q.chance(30) ? "s/+/" + rword(q, 3) : q.chance(30) ? "sh" : "s/" + rword(q, 1 + q.below(20)); l.say(c, mk::sub(l.m(), q.below(3), 0, 0, t)); w.settle(); if (q.chance(80)) { l.say(c, mk::unsub(l.m(), 0, 0, t)); w.settle(); } });
    part("rejected subscription", [&](LC& c, Rng& q) { l.rejectSub = 1; l.say(c, mk::sub(l.m(), 1, 0, 0, "no/" + rword(q, 5))); w.settle(); l.rejectSub = 0; });
    part("broker publishes", [&](LC& c, Rng& q) { Str t = q.chance(50) ? Str("xy") : "d/" + rword(q, 4); l.say(c, mk::sub(l.m(), 2, 0, 0, t)); w.settle(); for (int i = 0; i < 3; i++) { l.bmid = l.bmid % 65000 + 1; l.mq(l.conn(c), mk::mpub(t, i, l.bmid, bytes(q, q.below(700)))); w.settle(); } });
    part("broker publishes on a name matching a wildcard", [&](LC& c, Rng& q) { Str t = "w/" + rword(q, 4); l.say(c, mk::sub(l.m(), 1, 0, 0, "w/#")); w.settle(); for (int i = 0; i < 2; i++) { l.bmid = l.bmid % 65000 + 1; l.mq(l.conn(c), mk::mpub(t, i, l.bmid, bytes(q, q.below(100)))); } w.settle(); });
    part("client rejects a registration", [&](LC& c, Rng& q) { c.rejectReg = true; Str t = "rj/" + rword(q, 4); l.say(c, mk::sub(l.m(), 1, 0, 0, "rj/#")); w.settle(); l.mq(l.conn(c), mk::mpub(t, 1, 7, bytes(q, 40))); w.settle(); c.rejectReg = false; });
    part("oversized message of the broker", [&](LC& c, Rng& q) { l.mq(l.conn(c), mk::mpub("xy", 0, 0, bytes(q, q.range(1100, 5000)))); w.settle(); });
    part("ping", [&](LC& c, Rng&) { l.say(c, mk::pingreq()); w.settle(); });
    part("disconnect and connect", [&](LC& c, Rng& q) { l.say(c, mk::disc(-1)); w.settle(); l.connect(c, q.chance(60), q.chance(50)); });
    part("connect again", [&](LC& c, Rng& q) { l.connect(c, true, q.chance(50)); });
    part("will handshake broken off", [&](LC& c, Rng& q) { c.mute = true; l.connect(c, true, true); if (q.chance(50)) { l.say(c, mk::willtopic("half/way", 1, false)); w.settle(); } c.mute = false; l.connect(c, true, q.chance(50)); });
    part("will update", [&](LC& c, Rng& q) { sn::Pkt p = mk::willtopic("new/will", 1, true); p.type = sn::WILLTOPICUPD; l.say(c, p); p = mk::willmsg(bytes(q, q.below(50))); p.type = sn::WILLMSGUPD; l.say(c, p); w.settle(); });
    part("sleep and wake", [&](LC& c, Rng& q) { l.say(c, mk::sub(l.m(), 2, 0, 0, "zz")); w.settle(); l.say(c, mk::disc(100)); w.settle(); int k = 1 + q.below(25); for (int i = 0; i < k; i++) l.mq(l.conn(c), mk::mpub(q.chance(50) ? "zz" : "zz/" + rword(q, 1), 0, 0, bytes(q, q.below(50)))); w.settle(); if (q.chance(50)) { l.say(c, mk::pingreq(c.id)); w.settle(); } l.say(c, mk::connect(c.id, 60, false)); w.settle(); });
    part("asleep and gone", [&](LC& c, Rng& q) { l.say(c, mk::disc(100)); w.settle(); for (int i = 0; i < 5; i++) l.mq(l.conn(c), mk::mpub("zz", 0, 0, bytes(q, q.below(50)))); w.settle(); l.say(c, mk::disc(-1)); w.settle(); l.connect(c, true, false); });
    part("broker closes", [&](LC& c, Rng& q) { int cn = l.conn(c); bool rs = q.chance(50); w.later.push_back([cn, rs] { if (cn >= 0 && sim::connOpen(cn)) sim::brokerClose(cn, rs); }); w.settle(); l.connect(c, true, q.chance(30)); if (w.cfg.aggr) w.advance(15000000); });
    part("broker closes while the client sleeps", [&](LC& c, Rng& q) { l.say(c, mk::disc(100)); w.settle(); for (int i = 0; i < 3; i++) l.mq(l.conn(c), mk::mpub("zz", 0, 0, bytes(q, 9))); w.settle(); int cn = l.conn(c); w.later.push_back([cn] { if (cn >= 0 && sim::connOpen(cn)) sim::brokerClose(cn, false); }); w.settle(); l.connect(c, true, false); if (w.cfg.aggr) w.advance(15000000); });
    part("broker rejects the connection", [&](LC& c, Rng&) { l.say(c, mk::disc(-1)); w.settle(); l.rejectConn = 1; l.connect(c, true, false); l.rejectConn = 0; l.connect(c, true, false); });
    part("broker refuses the connection", [&](LC& c, Rng& q) { l.say(c, mk::disc(-1)); w.settle(); l.refuse = 1; l.connect(c, true, q.chance(50)); l.refuse = 0; l.connect(c, true, false); if (w.cfg.aggr) w.advance(15000000); });
    part("malformed packet of the broker", [&](LC& c, Rng& q) { Bytes b = bytes(q, q.range(2, 30)); b[0] = (uint8_t)(q.below(16) << 4 | 6); int cn = l.conn(c); w.later.push_back([this_ = &w, cn, b] { if (cn >= 0 && sim::connOpen(cn)) { this_->sendMqRaw(cn, b); } }); w.settle(); w.later.push_back([cn] { if (cn >= 0 && sim::connOpen(cn)) sim::brokerClose(cn, false); }); w.settle(); l.connect(c, true, false); if (w.cfg.aggr) w.advance(15000000); });
    part("acknowledgements nobody waits for", [&](LC& c, Rng& q) { for (int t : {mq::PUBACK, mq::PUBREC, mq::PUBREL, mq::PUBCOMP, mq::SUBACK, mq::UNSUBACK, mq::PINGRESP}) if (t != mq::PUBREC) l.mq(l.conn(c), mk::mack(t, q.below(9), 0)); for (int t : {sn::PUBACK, sn::PUBCOMP, sn::PUBREL}) l.say(c, mk::ack(t, 3, 1, 0)); l.say(c, mk::regack(5, 5, 0)); w.settle(); });
    part("strangers and garbage", [&](LC& c, Rng& q) { std::vector<sn::Pkt> ps = {mk::publish(2, 0, "ab", 5, 1, bytes(q, 20)), mk::reg(0, 4, "x/y"), mk::disc(-1), mk::pingreq("nobody"), mk::regack(1, 1, 0), mk::sub(4, 1, 0, 0, "x/y")}; for (auto& p : ps) { Bytes b = sn::enc(p); w.later.push_back([&w = w, stray, b] { w.sendRaw(stray, b); }); }
        for (int i = 0; i < 6; i++) { Bytes b = bytes(q, q.below(40)); if (b.size() > 1 && q.chance(60)) { b[0] = (uint8_t)b.size(); if (b[1] == sn::CONNECT || b[1] == sn::DISCONNECT || b[1] == 0xFE || b[1] == sn::SUBSCRIBE || b[1] == sn::REGISTER) b[1] = 0x1e; } NetAddr a = q.chance(50) || c.fwd ? stray : c.a; w.later.push_back([&w = w, a, b] { w.sendRaw(a, b); }); } w.settle(); });
    part("malformed CONNECT", [&](LC& c, Rng& q) { for (Bytes b : {Bytes{2, sn::CONNECT}, Bytes{3, sn::CONNECT, 4}, Bytes{5, sn::CONNECT, 4, 1, 0}, Bytes{5, sn::WILLTOPIC, 0, 0, 0}}) for (NetAddr a : {stray, c.fwd ? stray : c.a}) w.later.push_back([&w = w, a, b] { w.sendRaw(a, b); }); w.settle(); });
    part("requests without an answer, then another connection", [&](LC& c, Rng& q) { l.muteBroker = true; int k = 2 + q.below(24); for (int i = 0; i < k; i++) { if (q.chance(60)) l.say(c, mk::publish(2, 0, "ab", l.m(), 1 + q.below(2), bytes(q, q.below(30)))); else l.say(c, mk::sub(l.m(), 1, 0, 0, "na/" + rword(q, 1))); } w.settle(); l.muteBroker = false; l.connect(c, true, q.chance(30)); });
    part("search", [&](LC&, Rng&) { w.later.push_back([&w = w, stray] { w.sendRaw(stray, {3, sn::SEARCHGW, 0}); w.sendRaw(stray, {3, sn::SEARCHGW, 0}, true); }); w.settle(); });
    part("publish on an unknown topic", [&](LC& c, Rng& q) { for (int i = 0; i < 3; i++) { l.say(c, mk::publish(q.below(2), 60000, "", l.m(), i, bytes(q, q.below(20)))); w.settle(); } });
    part("another address", [&](LC& c, Rng&) { if (w.cfg.auth) return; std::swap(c.a, c.b); l.connect(c, true, false); });
    part("idle", [&](LC&, Rng& q) { w.advance(q.range(1, 30) * 1000000ll); });
    if (w.cfg.predef) part("predefined topics", [&](LC& c, Rng& q) { for (int t : {3, 4, 5}) { l.say(c, mk::publish(1, t, "", l.m(), 1, bytes(q, q.below(20)))); w.settle(); l.say(c, mk::sub(l.m(), 1, 1, t, "")); w.settle(); l.say(c, mk::unsub(l.m(), 1, t, "")); w.settle(); } l.mq(l.conn(c), mk::mpub("pre/all", 1, 9, bytes(q, 20))); w.settle(); });
    if (w.cfg.qosm1) part("QoS -1", [&](LC&, Rng& q) { for (NetAddr a : {qm, stray}) for (int i = 0; i < 3; i++) { Bytes b = sn::enc(mk::publish(i == 0 ? 1 : 2, 3, "ab", 0, 3, bytes(q, q.below(60)))); w.later.push_back([&w = w, a, b] { w.sendRaw(a, b); }); w.settle(); } });
    if (w.cfg.fwd) part("frames of forwarders", [&](LC&, Rng& q) { for (int i = 0; i < 4; i++) { Bytes in = sn::enc(i == 0 ? mk::publish(2, 0, "ab", 5, 1, bytes(q, 20)) : i == 1 ? mk::pingreq("nobody") : mk::disc(-1)); if (i == 3) in = bytes(q, 10), in[0] = 99; Bytes b = mk::encap(sn::B("foo"), in, 1); if (q.chance(30)) b[0] = (uint8_t)q.next(); NetAddr a = q.chance(70) ? fwd : stray; w.later.push_back([&w = w, a, b] { w.sendRaw(a, b); }); } w.settle(); });
    if (w.cfg.auth) part("unlisted clients", [&](LC&, Rng& q) { for (int i = 0; i < 3; i++) { Bytes b = sn::enc(mk::connect(i ? "cl" + std::to_string(i - 1) : "other", 60, true, q.chance(50))); w.later.push_back([&w = w, stray, b] { w.sendRaw(stray, b); }); w.settle(); } });
    if (w.cfg.maxClients == 8) part("too many clients", [&](LC&, Rng&) { for (int i = 0; i < 9; i++) { NetAddr a = stray; a.port = (uint16_t)(2000 + i); Bytes b = sn::enc(mk::connect("many" + std::to_string(i), 60)); w.later.push_back([&w = w, a, b] { w.sendRaw(a, b); }); } w.settle(); });
    // ---- this case
    std::vector<std::pair<int, int>> cyc; uint64_t cs = r.next(); Str what; for (int i = r.range(1, 4); i > 0; i--) { int k = r.below((uint32_t)all.size()), c = r.below((uint32_t)l.cs.size()); cyc.push_back({k, c}); what += Str(what.empty() ? "" : ", ") + all[k].what; }
    for (auto& c : l.cs) l.connect(c, true, r.chance(30));
    int warm = 40, N = 40, W = 4; int64_t at[5]; int socks[5];
    int done = 0; auto cycle = [&] { Rng q(cs); l.mid = l.mid % 30000; for (auto& k : cyc) all[k.first].f(l.cs[k.second], q); w.settle(); w.snLog.clear(); w.mqLog.clear(); w.snChecked = w.mqChecked = 0; done++; };
    for (int i = 0; i < warm; i++) cycle();
    for (int k = 0; k <= W; k++) { if (k) for (int i = 0; i < N / W; i++) cycle(); w.advance(3000000); at[k] = sim::liveBytes(); socks[k] = sim::openSockets(); w.note("cycle %d: heap %lld, sockets %d", done, (long long)at[k], socks[k]); }
    bool up = true; for (int k = 1; k <= W; k++) up &= at[k] - at[k - 1] >= N / W; Str d; for (int k = 0; k <= W; k++) d += (k ? " -> " : "") + std::to_string(at[k]);
    if (up) w.fail("C27", "repeating [" + what + "] makes the heap of the gateway grow: " + d + " bytes in steps of " + std::to_string(N / W) + " cycles");
    up = true; for (int k = 1; k <= W; k++) up &= socks[k] > socks[k - 1];
    if (up) w.fail("C27", "repeating [" + what + "] leaves sockets open: " + std::to_string(socks[0]) + " ... " + std::to_string(socks[W]));
    w.count("heap_checked", W); w.count("cycles", done); w.count("packets_of_the_gateway", l.seen); for (auto& k : cyc) w.state(fnv(all[k.first].what, strlen(all[k.first].what)));
    if (l.seen == 0) w.fail("C27", "harness: no packet of the gateway seen");
    w.pass();
}
