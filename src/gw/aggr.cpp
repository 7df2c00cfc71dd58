// Aggregating gateway (C19): all clients on the one broker connection of the aggregater.
#include "model.h"
#include "../sim/tls.h"
#include <algorithm>
#include <errno.h>
typedef MClient MC;
static Str rword(Rng& r, int n) { Str s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[r.below(64)]; return s; }
static void aggrCfg(Cfg& c, Rng& r) {
    c.aggr = true; c.gwName = rword(r, r.range(1, 14)); if (r.chance(30)) c.maxClients = 12;
    if (r.chance(30)) { c.predef = true; for (int i = r.range(1, 4); i > 0; i--) c.topics.push_back("*,pc/" + rword(r, 1 + r.below(5)) + "/" + std::to_string(i) + "," + std::to_string(i * r.range(1, 9))); std::set<Str> ids; for (auto& t : c.topics) if (!ids.insert(t.substr(t.rfind(','))).second) { c.topics.clear(); c.topics.push_back("*,pc/one,1"); break; } }
    if (r.chance(25)) { c.fwd = true; c.clients.push_back("fwd0,10.9.0.10:4000,forwarder"); }
}
static void tlsAggrCfg(Cfg& c, Rng& r) {
    bool mixed = r.chance(60); // otherwise every client is marked secureConnection
    aggrCfg(c, r); c.fwd = false; c.clients.clear(); c.auth = c.clientsFile = true; c.tls = c.clientCert = true; c.host = "broker.test"; if (r.chance(30)) c.securePort = std::to_string(r.range(2000, 60000));
    for (int i = r.range(1, 6); i > 0; i--) { c.clients.push_back(rword(r, r.range(1, 12)) + std::to_string(i) + ",10.3.0." + std::to_string(i) + ":" + std::to_string(r.range(2000, 60000))); if (r.chance(20)) keyword(c.clients.back(), r, "unstableLine"); if (i == 1 || !mixed || r.chance(50)) keyword(c.clients.back(), r, "secureConnection"); }
}
static void hostileAggrCfg(Cfg& c, Rng& r) {
    aggrCfg(c, r); c.maxClients = r.chance(70) ? 150 : 60;
    if (r.chance(20)) { c.qosm1 = c.clientsFile = true; } // its proxy is another adapter, nobody is listed for it
}
struct Aggr {
    World& w; Model& md; Rng& r; Str id; int conn = -1; bool accepted = false; std::set<int> gone; int refuse = 0, connects = 0, pol = 0;
    std::map<Str, std::set<MC*>> holders;                 // filter -> clients
    std::map<std::pair<MC*, int>, int*> gid;              // client and its message id -> id on the aggregater's connection
    std::map<std::pair<MC*, int>, bool> isNew;             // SUBSCRIBE outstanding for a filter the client did not have
    std::set<int> rel;                                    // QoS 2 messages of the broker waiting for PUBREL
    std::set<Str> touched; std::set<std::pair<Str, Bytes>> sentNow; std::set<int> usedNow; int kind = 0, nextMid = 1;
    bool sec; Aggr* other = nullptr; std::vector<MC*> cs; // with TLS there are two connections, each for its own clients
    Aggr(Model& md, bool sec) : w(md.w), md(md), r(md.r), id(md.w.cfg.gwName + "_Aggregater" + (sec ? "-S" : "")), sec(sec) {}
    bool out(MqOut& o) {
        if (w.cfg.tls && (sim::getTls(o.conn) != nullptr) != sec) w.fail("C19,C31", sec ? "packet in the clear on a connection for clients marked secureConnection: " + mq::str(o.p) : "TLS for clients not marked secureConnection");
        if (o.p.type == mq::CONNECT) {
            if (w.cfg.qosm1 && sn::S(o.p.clientId) == w.cfg.gwName + "_QoS-1") { w.ignoreConn.insert(o.conn); return true; }
            if (sn::S(o.p.clientId) != id) w.fail("C19", "MQTT CONNECT with client id " + sn::show(o.p.clientId) + " although all clients use the connection of " + id);
            if (o.p.will) w.fail("C19", "the CONNECT of the aggregater has a will");
            if (conn >= 0 && !gone.count(conn) && accepted) w.fail("C19", "a second connection of the aggregater while the first is in use");
            conn = o.conn; connects++; accepted = false; int cn = conn;
            if (pol != 3) w.later.push_back([this, cn] { if (conn == cn && sim::connOpen(cn)) { w.sendMq(cn, mk::mack(mq::CONNACK, 0)); accepted = true; } });
            w.count("aggregater_connect_checked"); return true;
        }
        if (o.conn != conn && !gone.count(o.conn)) w.fail("C19", "packet on a connection that is not the aggregater's: " + mq::str(o.p));
        if (o.p.type == mq::PINGREQ) { int cn = o.conn; w.later.push_back([this, cn] { if (sim::connOpen(cn)) w.sendMq(cn, mk::mack(mq::PINGRESP, 0)); }); w.count("aggregater_ping"); return true; }
        return w.hostile && foreign(o);
    }
    std::set<std::pair<Str, Bytes>> everSent; std::map<int, int> foreignId; // id of a request of an intruder -> its type
    // A packet that came of an intruder's datagram: nobody of the model waits for it and none of its clients has sent it. The broker answers.
    bool foreign(MqOut& o) {
        for (auto& e : w.wantMq[o.conn]) if (sameMq(e.p, o.p)) return false;
        if (o.p.type == mq::PUBLISH && everSent.count({sn::S(o.p.topic), o.p.payload})) return false;
        if (o.p.type == mq::CONNECT || o.p.type == mq::DISCONNECT) return false;
        w.count("foreign_aggregated");
        int want = 0, mid = o.p.msgId, cn = o.conn; Rng& a = md.ar;
        switch (o.p.type) {
        case mq::PUBLISH: want = o.p.qos == 1 ? mq::PUBACK : o.p.qos == 2 ? mq::PUBREC : 0; break; case mq::PUBREL: want = mq::PUBCOMP; break;
        case mq::SUBSCRIBE: want = mq::SUBACK; break; case mq::UNSUBSCRIBE: want = mq::UNSUBACK; break; }
        if (!want) return true;
        if (mid == 0) w.fail("C19,C05", "the aggregater uses message id 0: " + mq::str(o.p));
        foreignId[mid] = want; if (a.chance(12)) return true; // answered later or never
        answer(cn, mid); return true;
    }
    void answer(int cn, int mid) { int t = foreignId[mid], rc = t == mq::SUBACK ? (md.ar.chance(90) ? (int)md.ar.below(3) : 0x80) : 0; if (t != mq::PUBREC) foreignId.erase(mid); w.later.push_back([this, cn, mid, t, rc] { if (sim::connOpen(cn)) w.sendMq(cn, mk::mack(t, mid, rc)); }); }
    bool known(MC& c, const Str& t) { if (t.size() == 2 || c.idOf.count(t)) return true; for (auto& k : md.common) if (k.second == t && c.predefUsed.count(k.first) && !c.predefNew.count(k.first)) return true; return false; }
    bool busyPend(MC& c) { for (auto& p : c.pend) if (p.kind != MC::D1 && p.kind != MC::D2A && p.kind != MC::D2C) return true; return false; }
    int stream(MC& c) { return 10 + (int)(std::find(cs.begin(), cs.end(), &c) - cs.begin()); }
    std::vector<std::pair<int, int>> dead, deadNew; std::map<MC*, std::vector<int>> lostMids; // requests of a session that was given up: answer, id on the aggregater's connection
    void abandon(MC& c) {
        for (auto& p : c.pend) { auto g = gid.find({&c, p.mid}); if (g == gid.end()) continue; lostMids[&c].push_back(p.mid); int t = p.kind == MC::U1 ? mq::PUBACK : p.kind == MC::U2A ? mq::PUBREC : p.kind == MC::U2C ? mq::PUBCOMP : p.kind == MC::SUBP ? mq::SUBACK : p.kind == MC::UNSUBP ? mq::UNSUBACK : 0; if (t && *g->second > 0) deadNew.push_back({t, *g->second}); dropGid(c, p.mid); w.count("request_given_up"); }
    }
    bool opLate() { // the broker answers a request of a former session: nobody asked for it any more
        if (dead.empty()) return false; size_t i = r.below((uint32_t)dead.size()); auto d = dead[i]; dead.erase(dead.begin() + i);
        md.viaMq(conn, mk::mack(d.first, d.second, d.first == mq::SUBACK ? r.below(3) : 0)); w.count("late_answer_checked"); return true;
    }
    int newMid(MC& c) { auto& l = lostMids[&c]; if (l.size() && r.chance(50)) { int x = l.back(); l.pop_back(); bool u = c.recent.count(x); for (auto& p : c.pend) if (p.mid == x) u = true; if (!u) return x; } return md.freeMid(c); }
    int* cap(MC& c, int mid) { int* g = new int(-1); gid[{&c, mid}] = g; return g; }
    int brokerMid() { while (true) { int x = r.chance(60) ? nextMid++ : md.msgId(); if (nextMid > 0xFFFF) nextMid = 1; if (rel.count(x) || usedNow.count(x)) continue; bool u = false; for (auto c : cs) { for (auto& p : c->pend) if (p.kind >= MC::D1 && p.kind <= MC::D2C && p.mid == x) u = true; for (auto& d : c->stored) if (d.qos && d.mid == x) u = true; } if (!u) { usedNow.insert(x); return x; } } }
    Str held(MC* c, bool own) { std::vector<Str> v; for (auto& h : holders) if (!h.second.empty() && (!own || h.second.count(c))) v.push_back(h.first); return v.empty() ? "" : r.pick(v); }
    // ---- operations
    bool opPub(MC& c) {
        if (c.st != MC::ACTIVE || c.pend.size() > 16) return false;
        int tit, tid; Str t = md.pickTopic(c, tit, tid, true); if (t.empty()) return false;
        int qos = r.below(3), mid = qos ? newMid(c) : 0; bool retain = r.chance(30), dup = qos && r.chance(15); Bytes d = md.payload(); while ((w.hostile && d.size() < 4) || !sentNow.insert({t, d}).second) d = md.bytes(6); // two clients' equal messages could not be told apart
        everSent.insert({t, d}); w.tag = md.T(c, tit == 1 ? "C19,C08,C21" : "C19,C08"); w.stream = stream(c);
        md.viaSn(c, mk::publish(tit, tid, t, mid, qos, d, retain, dup)); auto& e = w.expMq(conn, mk::mpub(t, qos, qos ? -1 : 0, d, retain, dup));
        if (qos) { e.capMid = cap(c, mid); MC::Pend p; p.kind = qos == 1 ? MC::U1 : MC::U2A; p.mid = mid; p.tid = tit == 2 ? ((uint8_t)t[0] << 8 | (uint8_t)t[1]) : tid; p.qos = qos; p.name = t; p.type = tit; c.pend.push_back(p); }
        w.count("uplink_aggr"); return true;
    }
    bool opSub(MC& c) {
        if (c.st != MC::ACTIVE || c.pend.size() > 16 || kind != 0) return false;
        int tit = 0, tid = 0; Str n; int k = r.below(10);
        if (k < 2) { n = md.pickTopic(c, tit, tid, true); if (n.empty()) return false; }
        else {
            if (md.tableUse(c) >= md.m.maxTopics) return false;
            if (k < 6) { n = other && r.chance(40) ? other->held(nullptr, false) : held(&c, r.chance(20)); if (n.empty()) return false; }    // what another one has
            else if (k < 8) n = md.name(40);
            else { n = md.name(20); size_t e = n.find('/'); switch (r.below(6)) { case 0: n = (e == Str::npos ? n : n.substr(0, e)) + "/#"; break; case 1: n = "+/" + n; break; case 2: n = n + "/+"; break; case 3: n = (e == Str::npos ? n + "/+/" : n.substr(0, e) + "/+/") + md.word(2); break; case 4: n = md.word(3) + "/+/#"; break; default: { Str o = held(&c, false); e = o.find('/'); if (e == Str::npos || e == 0) n = "#"; else n = o.substr(0, e) + "/#"; } } }
            if (n.size() == 2 && n.find_first_of("#+") == Str::npos) { tit = 2; }
            if (tit == 0) { if (c.table.count(n) && !c.idOf.count(n)) { bool f = false; for (auto& x : c.filters) if (x == n) f = true; if (!f) return false; } for (auto& kk : md.common) if (kk.second == n) return false; }
        }
        for (auto& p : c.pend) if ((p.kind == MC::SUBP || p.kind == 99) && p.name == n) return false;
        if (w.hostile && (tit == 1 || Model::oddTopic(n))) return false; // an intruder may have it too
        if (!touched.insert(n).second) return false;
        if (tit == 0) c.table.insert(n);
        int qos = r.below(3), mid = newMid(c); w.tag = md.T(c, "C19"); w.stream = stream(c);
        sn::Pkt p = mk::sub(mid, qos, tit, tid, n); p.dup = r.chance(10); if (tit == 1) p.name.clear();
        md.viaSn(c, p); w.expMq(conn, mk::msub(n, qos, -1)).capMid = cap(c, mid); isNew[{&c, mid}] = !holders[n].count(&c); holders[n].insert(&c);
        MC::Pend q; q.kind = MC::SUBP; q.mid = mid; q.tid = tit == 2 ? ((uint8_t)n[0] << 8 | (uint8_t)n[1]) : tid; q.name = n; q.qos = qos; q.type = tit; c.pend.push_back(q);
        w.count("subscribe_aggr"); return true;
    }
    bool opUnsub(MC& c) {
        if (c.st != MC::ACTIVE || c.pend.size() > 16 || kind != 0) return false;
        Str n = held(&c, true); if (n.empty() || !holders[n].count(&c)) return false;
        for (auto& p : c.pend) if ((p.kind == MC::SUBP || p.kind == 99) && p.name == n) return false;
        for (auto& v : voided) if (v.second.count(n)) return false;
        bool other = false; for (auto x : holders[n]) if (x != &c) { if (x->st == MC::DISC || x->st == MC::ORPHAN) return false; other = true; }
        int tit = 0, tid = 0; for (auto& k : md.common) if (k.second == n) { tit = 1; tid = k.first; } if (n.size() == 2 && n.find_first_of("#+") == Str::npos) tit = 2;
        if (!touched.insert(n).second) return false;
        int mid = newMid(c); w.tag = md.T(c, "C19"); sn::Pkt p = mk::unsub(mid, tit, tid, n); if (tit == 1) p.name.clear();
        md.viaSn(c, p); holders[n].erase(&c); auto f = std::find(c.filters.begin(), c.filters.end(), n); if (f != c.filters.end()) c.filters.erase(f);
        if (other) { w.stream = 4; w.expSn(c.a, mk::ack(sn::UNSUBACK, mid)); c.recent.insert(mid); w.count("unsubscribe_direct_checked"); }
        else { w.stream = stream(c); w.expMq(conn, mk::munsub(n, -1)).capMid = cap(c, mid); MC::Pend q; q.kind = MC::UNSUBP; q.mid = mid; q.name = n; q.tid = 0; q.qos = 0; q.type = tit; c.pend.push_back(q); w.count("unsubscribe_forwarded_checked"); }
        return true;
    }
    Str downTopic() {
        Str f = r.chance(92) ? held(nullptr, false) : ""; if (other && r.chance(20)) f = other->held(nullptr, false); if (f.empty()) return r.chance(50) ? md.name(30) : md.shortName();
        Str t; for (int n = 0; n < 6; n++) { t = ""; for (size_t i = 0; i < f.size(); i++) { char ch = f[i]; if (ch == '+') t += md.word(1 + r.below(4)); else if (ch == '#') { if (r.chance(15) && t.size() > 4) t.pop_back(); else t += md.word(1 + r.below(4)) + (r.chance(30) ? "/" + md.word(2) : ""); } else t += ch; } if (t[0] != '$') break; }
        if (r.chance(30) && touched.size()) { Str x = *touched.begin(); if (filterMatch(f, x)) t = x; }
        return t;
    }
    bool opDown() {
        if (kind != 1) return false;
        Str t = downTopic(); if (t.empty() || t == "/" || unclear(t)) return false;
        std::vector<MC*> to; for (auto c : cs) { bool m = false; for (auto& h : holders) if (h.second.count(c) && filterMatch(h.first, t)) m = true; if (!m) continue;
            if (md.busy[c] & 1) return false; for (auto& p : c->pend) if ((p.kind == MC::SUBP || p.kind == 99) && p.name == t) return false;
            if (c->st == MC::ASLEEP && c->stored.size() >= 20) return false; if (c->st == MC::ACTIVE || c->st == MC::ASLEEP) to.push_back(c); }
        for (auto c : to) if (!known(*c, t)) {
            if (c->table.count(t) && !c->expectReg.count(t)) { bool st = false; for (auto& d : c->stored) if (d.topic == t) st = true; if (!st) return false; }
            int fresh = 0; for (auto& d : c->stored) if (!known(*c, d.topic)) fresh++; if (md.tableUse(*c) + fresh + 1 >= md.m.maxTopics || c->expectReg.size() + fresh > 4) return false; }
        touched.insert(t); Down d; d.topic = t; d.qos = r.below(3); d.mid = d.qos ? brokerMid() : 0; d.data = md.payload(r.chance(80) ? 100 : -1); d.retain = r.chance(25); d.dup = d.qos && r.chance(15);
        md.viaMq(conn, mk::mpub(t, d.qos, d.mid, d.data, d.retain, d.dup)); w.count("downlink_aggr");
        for (auto c : to) {
            w.tag = md.T(*c, "C19,C09,C12"); md.busy[c] |= 4; w.count("downlink_copy_checked");
            if (c->st == MC::ASLEEP) { c->stored.push_back(d); w.count("stored"); continue; }
            int s = 2; if (!known(*c, t)) { c->expectReg.insert(t); c->table.insert(t); s = 100 + (int)std::distance(c->expectReg.begin(), c->expectReg.find(t)); auto& so = regStream[{c, t}]; if (!so) so = 100 + (int)regStream.size(); s = so; }
            md.expDown(*c, d, s); md.owe(*c, d);
        }
        w.state(fnv("ad", 2, (int)to.size() * 3 + d.qos));
        w.tag = "C19,C10"; w.stream = 1000; if (d.qos) { w.expMq(conn, mk::mack(d.qos == 1 ? mq::PUBACK : mq::PUBREC, d.mid)); if (d.qos == 2) relNew.insert(d.mid); }
        w.stream = 0; return true;
    }
    std::map<std::pair<MC*, Str>, int> regStream; std::set<int> relNew;
    bool opPubrel() {
        if (rel.empty()) return false; auto it = rel.begin(); std::advance(it, r.below((uint32_t)rel.size())); int mid = *it; rel.erase(it); usedNow.insert(mid);
        w.tag = "C19,C10"; w.stream = 1001; md.viaMq(conn, mk::mack(mq::PUBREL, mid)); w.expMq(conn, mk::mack(mq::PUBCOMP, mid)); w.stream = 0; w.count("pubrel_checked"); return true;
    }
    bool opProgress(MC& c) {
        if (c.st != MC::ACTIVE || c.pend.empty() || (md.busy[&c] & 4)) return false;
        int which = r.below((uint32_t)c.pend.size()); MC::Pend& p = c.pend[which]; if (p.kind == 99) return false; bool done = false; auto g = gid.find({&c, p.mid}); int gm = g == gid.end() ? -1 : *g->second; if (gm < 0 && (p.kind <= MC::U2C || p.kind == MC::SUBP || p.kind == MC::UNSUBP)) return false;
        auto fromBroker = [&](int mqt, int snt) { w.tag = md.T(c, "C19,C10"); w.stream = 1; md.viaMq(conn, mk::mack(mqt, gm)); w.expSn(c.a, mk::ack(snt, p.mid, snt == sn::PUBACK ? p.tid : 0, 0)); w.count("ack_translated_checked"); };
        w.tag = md.T(c, "C19,C10");
        switch (p.kind) {
        case MC::U1: fromBroker(mq::PUBACK, sn::PUBACK); done = true; break;
        case MC::U2A: fromBroker(mq::PUBREC, sn::PUBREC); p.kind = MC::U2B; break;
        case MC::U2B: w.stream = stream(c); md.viaSn(c, mk::ack(sn::PUBREL, p.mid)); w.expMq(conn, mk::mack(mq::PUBREL, gm)); p.kind = MC::U2C; break;
        case MC::U2C: fromBroker(mq::PUBCOMP, sn::PUBCOMP); done = true; break;
        case MC::UNSUBP: fromBroker(mq::UNSUBACK, sn::UNSUBACK); done = true; break;
        case MC::SUBP: {
            bool rej = r.chance(rejectPct) && !touched.count(p.name); int granted = rej ? 0 : r.below((uint32_t)p.qos + 1); w.stream = 1; md.viaMq(conn, mk::mack(mq::SUBACK, gm, rej ? 0x80 : granted)); bool wild = p.name.find_first_of("#+") != Str::npos;
            sn::Pkt e = mk::simple(sn::SUBACK); e.msgId = p.mid; e.qos = granted; e.rc = rej ? -1 : 0; e.topicId = rej || wild ? -1 : p.type == 0 ? (c.idOf.count(p.name) ? c.idOf[p.name] : -1) : p.tid;
            w.expSn(c.a, e, nullptr, [rej](const sn::Pkt& g) { return rej && g.rc == 0 ? Str("the broker's rejection was turned into an acceptance") : Str(); });
            if (rej) { if (p.type == 0 && !c.idOf.count(p.name)) c.tainted.insert(p.name); p.type = 3; if (isNew[{&c, p.mid}]) holders[p.name].erase(&c); touched.insert(p.name); w.count("suback_rejected"); }
            else voided[&c].erase(p.name);
            if (!rej && wild && std::find(c.filters.begin(), c.filters.end(), p.name) == c.filters.end()) c.filters.push_back(p.name);
            p.kind = 99; dropGid(c, p.mid); w.count("ack_translated_checked"); break; }
        case MC::D1: md.viaSn(c, mk::ack(sn::PUBACK, p.mid, c.idOf.count(p.name) ? c.idOf[p.name] : 1, 0)); done = true; break; // the gateway has acknowledged it already
        case MC::D2A: md.viaSn(c, mk::ack(sn::PUBREC, p.mid)); w.stream = 4; w.expSn(c.a, mk::ack(sn::PUBREL, p.mid)); p.kind = MC::D2C; break;
        case MC::D2C: md.viaSn(c, mk::ack(sn::PUBCOMP, p.mid)); done = true; break;
        }
        w.stream = 0; md.busy[&c] |= 4;
        if (done) { if (p.kind <= MC::U2C || p.kind == MC::UNSUBP) dropGid(c, p.mid); c.recent.insert(p.mid); usedNow.insert(p.mid); c.pend.erase(c.pend.begin() + which); }
        return true;
    }
    int rejectPct = 10;
    void dropGid(MC& c, int mid) { auto g = gid.find({&c, mid}); if (g != gid.end()) { delete g->second; gid.erase(g); } }
    bool opPing(MC& c) { if (c.st != MC::ACTIVE) return false; w.tag = md.T(c, "C19,C26"); w.stream = 5; md.viaSn(c, mk::pingreq(r.chance(30) ? c.id : "")); w.expSn(c.a, mk::simple(sn::PINGRESP)); md.busy[&c] |= 1; w.count("ping"); return true; }
    bool opDisc(MC& c) {
        if ((c.st != MC::ACTIVE && c.st != MC::ASLEEP) || busyPend(c) || c.stored.size()) return false; // with stored messages: left open whether a later session gets them
        md.busy[&c] |= 1; w.tag = md.T(c, "C19,C13"); w.stream = 1; md.viaSn(c, mk::disc(r.chance(20) ? 0 : -1)); w.expSn(c.a, mk::disc(-1)); md.lost(c); c.st = MC::DISC; return true;
    }
    void connect(MC& c, bool clean) {
        md.busy[&c] |= 1; w.tag = md.T(c, "C19,C13"); w.stream = 1; abandon(c); md.newSession(c, clean); if (clean) { voided[&c].clear(); for (auto& h : holders) { h.second.erase(&c); touched.insert(h.first); } }
        md.viaSn(c, mk::connect(c.id, r.range(10, 300), clean, false)); w.expSn(c.a, mk::rcp(sn::CONNACK, 0)); c.st = MC::ACTIVE; w.count("client_connect_checked");
    }
    bool opReconnect(MC& c) {
        if ((c.st != MC::ACTIVE && c.st != MC::DISC && c.st != MC::NEW) || kind != 0) return false;
        bool clean = r.chance(60); if (busyPend(c) && (!clean || r.chance(50))) return false;
        if (clean) for (auto& h : holders) if (h.second.count(&c) && touched.count(h.first)) return false;
        if (!c.fwd && !w.cfg.auth && r.chance(30)) { md.byAddr.erase(c.a); c.a = md.addr(); md.byAddr[c.a] = &c; }
        connect(c, clean); return true;
    }
    bool opWill(MC& c) {
        if ((c.st != MC::ACTIVE && c.st != MC::DISC && c.st != MC::NEW) || md.busy.size() || kind != 0) return false;
        bool clean = r.chance(60); if (busyPend(c) && (!clean || r.chance(50))) return false;
        abandon(c); md.newSession(c, clean); if (clean) { voided[&c].clear(); for (auto& h : holders) h.second.erase(&c); }
        Str tg = md.T(c, "C19,C14"); w.tag = tg; w.stream = 1; md.viaSn(c, mk::connect(c.id, 60, clean, true)); w.expSn(c.a, mk::simple(sn::WILLTOPICREQ)); md.flush();
        w.tag = tg; w.stream = 1; md.viaSn(c, mk::willtopic(md.name(), r.below(3), r.below(2))); w.expSn(c.a, mk::simple(sn::WILLMSGREQ)); md.flush();
        w.tag = tg; w.stream = 1; md.viaSn(c, mk::willmsg(md.payload(200))); w.expSn(c.a, mk::rcp(sn::CONNACK, 0)); w.stream = 0; c.st = MC::ACTIVE; md.busy[&c] |= 1; w.count("will"); return true;
    }
    bool excl(MC& c, int what) {
        if (md.busy.count(&c) && md.busy[&c]) return false;
        switch (what) {
        case 0: return opDisc(c); case 1: return opReconnect(c); case 2: return opWill(c); case 3: return opPing(c);
        case 4: return !busyPend(c) && md.opSleep(c); case 5: if (c.st != MC::ASLEEP) return false; w.count("wake"); return md.opWake(c, false); case 6: return md.opWakeConnect(c);
        case 7: return md.opProbe(c); case 8: return md.opWillUpd(c); }
        return false;
    }
    bool settleConn() { for (int i = 0; i < 20 && !(accepted && conn >= 0 && sim::connOpen(conn)); i++) { w.advance(3000000); w.check(); } return accepted; }
    void lostConn() { // the broker ends the connection: what was outstanding is void; a round of its own
        int cn = conn; bool reset = r.chance(40); w.tag = "C19"; gone.insert(cn); accepted = false; conn = -1; w.mayClose.insert(cn); if (r.chance(30)) refuse = 1 + r.below(2);
        NetAddr k; k.ip = (uint32_t)cn; md.via(1, k, [this, cn, reset] { w.note("BR c%d closed by the broker%s", cn, reset ? " (reset)" : ""); sim::brokerClose(cn, reset); });
        md.flush(); w.count("aggregater_lost");
        for (auto c : cs) { for (size_t i = 0; i < c->pend.size();) { auto& p = c->pend[i]; if (p.kind == MC::SUBP) { // it may be sent again
                    if (p.type == 0 && !c->idOf.count(p.name)) c->tainted.insert(p.name); if (isNew[{c, p.mid}]) { holders[p.name].erase(c); voided[c].insert(p.name); } }
                if (p.kind == MC::D1 || p.kind == MC::D2A || p.kind == MC::D2C) i++; else c->pend.erase(c->pend.begin() + i); } }
        for (auto& g : gid) delete g.second; gid.clear(); rel.clear(); dead.clear(); foreignId.clear();
        if (!settleConn()) w.fail("C19", "the aggregater does not connect to the broker any more");
    }
    std::map<MC*, std::set<Str>> voided; // SUBSCRIBEs without an answer: whether they count is left open
    bool unclear(const Str& t) { for (auto& v : voided) for (auto& f : v.second) if (filterMatch(f, t)) return true; return false; }
    void start() {
        touched.clear(); usedNow.clear(); sentNow.clear(); regStream.clear(); kind = r.below(2); }
    void ops() {
        int k = 1 + r.below(md.m.batch), done = 0; if (cs.empty()) return;
        for (int tries = 0; tries < k * 12 && done < k; tries++) {
            MC& c = *r.pick(cs); bool ok = false; w.stream = 0; int x = r.below(100);
            if (md.busy.count(&c) && (md.busy[&c] & 1)) continue;
            bool had = md.busy.count(&c) > 0;
            if (x < 18) ok = opPub(c); else if (x < 32) ok = kind == 0 ? opSub(c) : opDown(); else if (x < 38) ok = kind == 0 ? opUnsub(c) : opDown(); else if (x < 62) ok = opProgress(c); else if (x < 66) ok = opPubrel(); else if (x < 70) ok = md.opReg(c);
            else if (w.hostile && x < 88 && x >= 76 && r.chance(70)) { ok = true; md.opAttack(); if (foreignId.size() && r.chance(20)) answer(conn, foreignId.begin()->first); if (!had) { done++; md.busy.erase(&c); continue; } }
            else if (x < 72) ok = !w.hostile && md.opSearch(); else if (x < 73) ok = md.opStranger(); else if (x < 76 && dead.size()) ok = opLate(); else if (!had || !md.busy[&c]) { static const int tb[] = {0, 1, 1, 3, 3, 4, 4, 4, 5, 5, 5, 5, 6, 7, 8}; ok = excl(c, r.chance(4) ? 2 : tb[r.below(15)]); }
            if (ok) { done++; if (!md.busy.count(&c)) md.busy[&c] |= 2; }
        }
    }
    void finish() {
        for (int m : relNew) rel.insert(m); relNew.clear(); dead.insert(dead.end(), deadNew.begin(), deadNew.end()); deadNew.clear();
        std::map<int, std::pair<MC*, int>> seen;
        for (auto& g : gid) {
            if (*g.second == 0) w.fail("C19", "a request of client " + g.first.first->id + " was forwarded with message id 0");
            if (*g.second < 0) continue;
            auto i = seen.find(*g.second); if (foreignId.count(*g.second) && w.hostile) w.fail("C19,C05", "message id " + std::to_string(*g.second) + " stands for an outstanding request of an intruder and for one of " + g.first.first->id); if (i != seen.end()) w.fail("C19", "message id " + std::to_string(*g.second) + " stands for two outstanding requests: " + std::to_string(g.first.second) + " of " + g.first.first->id + " and " + std::to_string(i->second.second) + " of " + i->second.first->id);
            seen[*g.second] = g.first; w.count("unique_id_checked");
        }
        for (auto c : cs) {
            c->predefNew.clear(); for (size_t i = 0; i < c->pend.size();) if (c->pend[i].kind == 99) c->pend.erase(c->pend.begin() + i); else i++;
            if (c->st == MC::AWAKE) { c->st = MC::ASLEEP; c->awakePing = false; }
        }
        int shared = 0; for (auto& h : holders) if (h.second.size() > 1) shared++;
        uint64_t h = 19; for (auto c : cs) { int z[3] = {(int)c->st, (int)c->pend.size(), (int)c->stored.size()}; h = fnv(z, sizeof z, h); } h = fnv(&shared, 4, h); w.state(h); w.count("rounds");
    }
};
static void aggregated(World& w, bool hostile = false) {
    Rng& r = w.r; Mix m; m.batch = 1 + r.below(9); m.maxPayload = w.cfg.fwd ? 880 : 1015; m.claim = w.cfg.tls ? "C19,C31" : "C19"; Model md(w, m); Aggr plain(md, false), secure(md, true); std::vector<Aggr*> A{&plain}; if (w.cfg.tls) { A.push_back(&secure); plain.other = &secure; secure.other = &plain; }
    auto inner = w.onlineMq; w.onlineMq = [&](MqOut& o) { Aggr& a = o.p.type == mq::CONNECT ? sn::S(o.p.clientId) == secure.id && w.cfg.tls ? secure : plain : secure.conn == o.conn || secure.gone.count(o.conn) ? secure : plain; return a.out(o) || inner(o); };
    auto cp = w.connectPolicy; w.connectPolicy = [&, cp](int i) { Aggr& ag = w.cfg.tls && w.connectPort == w.cfg.securePort ? secure : plain; if (ag.refuse > 0) { ag.refuse--; w.count("aggregater_refused"); if (ag.sec && r.chance(60)) { w.count("bad_broker_checked"); return 1000 + r.range(2, tls::NCERT - 1); } return ECONNREFUSED; } return cp(i); };
    if (w.cfg.fwd) { NetAddr a; a.ip = 10u << 24 | 9 << 16 | 10; a.port = 4000; md.fwds.push_back(a); md.used.insert(a); }
    for (auto a : A) if (r.chance(20)) a->refuse = 1 + r.below(2);
    if (w.cfg.tls) for (auto& l : w.cfg.clients) { NetAddr a; a.ip = 10u << 24 | 3 << 16 | (unsigned)atoi(l.c_str() + l.find(".0.") + 3); a.port = (uint16_t)atoi(l.c_str() + l.find(':') + 1); (l.find("secure") != Str::npos ? secure : plain).cs.push_back(md.add(l.substr(0, l.find(',')), a)); }
    if (hostile) { md.m.claim = "C05"; for (auto& f : md.fwds) w.fwdAddr.insert(f); auto tq = w.tagMq; w.tagMq = [tq](const MqOut& o) { return tq(o) + ",C05"; }; }
    int n = w.cfg.tls ? 0 : r.range(1, 6);
    for (int i = 0; i < n; i++) {
        if (!hostile) { if (w.cfg.fwd && r.chance(50)) md.addFwd(md.clientId()); else md.add(md.clientId(), md.addr()); }
        else if (w.cfg.fwd && r.chance(40)) { MC* c = md.add(canaryId(r, i), NetAddr()); md.byAddr.erase(NetAddr()); NetAddr v = md.addr(); w.putBehind(v, md.fwds[0], sn::B("canarynode" + std::to_string(i))); c->a = v; c->fwd = true; md.byAddr[v] = c; }
        else md.add(canaryId(r, i), md.addr());
    }
    if (hostile) { md.hostile(r.range(1, 4)); for (auto& f : md.fwds) { Model::Attacker t; t.a = f; t.fwd = true; t.ids = {"xf", "y"}; md.att.push_back(t); } for (auto& t : md.att) if (r.chance(30)) t.ids.push_back(w.cfg.gwName + (r.chance(70) ? "_Aggregater" : "_QoS-1")); }
    if (!w.cfg.tls) plain.cs = md.cs;
    w.run(); for (auto a : A) if (!a->settleConn()) w.fail("C19", "the aggregater does not connect to the broker");
    for (auto a : A) for (auto c : a->cs) { md.busy.clear(); a->connect(*c, r.chance(70)); md.flush(); md.busy.clear(); for (int i = r.below(3); i > 0; i--) md.opReg(*c); md.flush(); }
    if (!w.cfg.tls && r.chance(5)) { // a client that never completes what it has begun: its requests must not keep out those of others
        MC* c = md.add(md.clientId(), md.addr()); md.busy.clear(); plain.connect(*c, true); md.flush(); int total = r.range(505, 560);
        for (int i = 1; i <= total; i++) { Bytes d = md.bytes(8); plain.everSent.insert({"hq", d}); w.tag = md.T(*c, "C19"); w.stream = 10; md.viaSn(*c, mk::publish(2, 0, "hq", i, 1 + i % 2, d)); w.expMq(plain.conn, mk::mpub("hq", 1 + i % 2, -1, d)); if (i % 40 == 0 || i == total) md.flush(); }
        w.stream = 0; w.count("abandoned_requests_checked", total);
    }
    if (r.chance(70)) for (auto a : A) for (auto c : a->cs) { md.busy.clear(); a->touched.clear(); a->kind = 0; for (int i = r.below(4); i > 0; i--) a->opSub(*c); md.flush(); }
    int steps = r.range(8, 36);
    for (int s = 0; s < steps; s++) {
        if (r.chance(4)) { r.pick(A)->lostConn(); continue; }
        md.busy.clear(); md.rounds++; md.attackBudget = 40; md.stallBudget = 0; for (auto a : A) a->start(); for (auto a : A) a->ops(); md.flush(); for (auto a : A) a->finish();
        if (r.chance(6)) { w.advance(r.range(1, r.chance(20) ? 2000 : 30) * 1000000ll); w.check(); w.count("idle"); }
    }
    w.pass();
}
SCENARIO(aggregate, "C19", aggrCfg, "clients share the aggregater's connection: shared and overlapping filters, all QoS both ways, sleepers, new sessions, lost broker connections") { aggregated(w); }
SCENARIO(tlsaggregate, "C31", tlsAggrCfg, "the aggregating gateway with every client marked secureConnection: all traffic on one TLS connection, impostors, lost connections") { aggregated(w); }
SCENARIO(aggrhostile, "C05", hostileAggrCfg, "the aggregating gateway: clients at work while other addresses send valid packets in any order, mutated packets, random bytes and bogus encapsulations, whose requests go on the same broker connection") { aggregated(w, true); }
