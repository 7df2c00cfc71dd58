// QoS -1 publishers and their proxy (C18).
#include "model.h"
#include "../sim/tls.h"
#include <errno.h>
typedef MClient MC;
static Str rword(Rng& r, int n) { Str s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[r.below(64)]; return s; }
static NetAddr at(const Str& l) { NetAddr a; unsigned b[4] = {0}, p = 0; sscanf(l.c_str() + l.find(',') + 1, "%u.%u.%u.%u:%u", b, b + 1, b + 2, b + 3, &p); a.ip = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; a.port = (uint16_t)p; return a; }

static void qm1Cfg(Cfg& c, Rng& r) {
    c.qosm1 = true; c.clientsFile = true; c.gwName = rword(r, r.range(1, 12)); std::vector<Str> ids; std::set<Str> ports;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
        Str id = !ids.empty() && r.chance(40) ? ids[0] + rword(r, 1) : rword(r, r.range(1, 20)); bool dup = false; for (auto& x : ids) dup |= x == id; if (dup) continue; ids.push_back(id);
        Str a; do a = "10." + std::to_string(r.below(2)) + ".7." + std::to_string(1 + r.below(6)) + ":" + std::to_string(r.chance(50) ? 5000 : 5000 + (int)r.below(3)); while (!ports.insert(a).second);
        if (r.chance(20)) c.clients.push_back("# " + id);
        c.clients.push_back(id + (r.chance(20) ? ", " : ",") + a + ",QoS-1");
    }
    if (r.chance(40)) { c.fwd = true; c.clients.push_back("fwd0,10.9.0.10:4000,forwarder"); }
    c.predef = r.chance(75);
    if (c.predef) {
        std::set<int> used; ids.push_back("*"); if (r.chance(50)) ids.push_back("other");
        for (int i = r.range(1, 14); i > 0; i--) { int t; do t = r.chance(60) ? r.range(1, 20) : r.range(1, 65534); while (!used.insert(t).second); c.topics.push_back(r.pick(ids) + ",p/" + rword(r, r.range(1, 12)) + "/" + std::to_string(i) + "," + std::to_string(t)); }
    }
}
struct QMsg { Str topic; Bytes data; bool retain, maybe; };
struct Proxy {
    World& w; Model& md; Rng& r; Str id; int conn = -1; bool accepted = false, open = false; std::set<int> conns, gone; std::vector<QMsg> sent; std::vector<QMsg> early; // early: on a connection not accepted yet
    int pol = 0, refuse = 0; bool pendingConnack = false, race = false, mute = false; // mute: the broker did not answer a PINGREQ
    int connects = 0; int64_t lastConnect = 0; // race: the connection before was accepted at the moment the gateway gave it up
    std::vector<std::pair<Str, NetAddr>> pubs;
    std::vector<std::pair<Str, NetAddr>> all; bool sec; Str T; // all: of both proxies
    Proxy(Model& md, bool sec) : w(md.w), md(md), r(md.r), id(md.w.cfg.gwName + (sec ? "_QoS-1-S" : "_QoS-1")), sec(sec) {}
    void got(const QMsg& m) {
        for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < sent.size(); i++) if (sent[i].maybe == (pass == 1) && sent[i].topic == m.topic && sent[i].data == m.data && sent[i].retain == m.retain) { sent.erase(sent.begin() + i); w.count("qosm1_checked"); return; }
        for (auto& x : sent) if (x.data == m.data && m.data.size() > 3) w.fail(T, "the proxy published a QoS -1 message on " + sn::show(sn::B(m.topic)) + (m.retain ? " retained" : "") + " instead of " + sn::show(sn::B(x.topic)) + (x.retain ? " retained" : ""));
        w.fail(T, "the proxy published a message no QoS-1 client sent (or published it again): topic " + sn::show(sn::B(m.topic)) + " payload " + sn::show(m.data, 40));
    }
    void mayLose(const QMsg& m) { for (auto& x : sent) if (!x.maybe && x.topic == m.topic && x.data == m.data && x.retain == m.retain) { x.maybe = true; w.count("lost_in_flight"); break; } } // written to a connection the broker then did not accept
    void lost() { for (auto& m : early) mayLose(m); early.clear(); }
    void connack(int rc) {
        int cn = conn; pendingConnack = false;
        w.later.push_back([this, cn, rc] {
            if (!sim::connOpen(cn) || cn != conn) return;
            w.sendMq(cn, mk::mack(mq::CONNACK, 0, rc));
            if (!rc) { accepted = true; for (auto& m : early) got(m); early.clear(); } else { gone.insert(cn); conn = -1; open = false; lost(); } });
    }
    bool out(MqOut& o) {
        if (o.p.type == mq::CONNECT && sn::S(o.p.clientId) == id) {
            if (conn >= 0 && open && sim::connOpen(conn) && !mute) w.fail(T, "the proxy opened another connection while it has one");
            race = accepted; mute = false; conn = o.conn; conns.insert(conn); accepted = false; open = true; lost(); w.mayClose.insert(conn); connects++; lastConnect = sim::nowUs(); w.count("proxy_connect_checked");
            if (w.cfg.tls && (sim::getTls(conn) != nullptr) != sec) w.fail(T, sec ? "the secure proxy connected in the clear" : "the proxy connected over TLS");
            if (o.p.will) w.fail(T, "the CONNECT of the proxy has a will");
            switch (pol) { case 0: connack(0); break; case 1: pendingConnack = true; break; case 2: connack(1 + r.below(5)); break; case 3: break; case 4: pendingConnack = true; break; }
            return true;
        }
        if (!conns.count(o.conn)) return false;
        if (gone.count(o.conn)) { if (o.p.type == mq::PUBLISH) mayLose(QMsg{sn::S(o.p.topic), o.p.payload, (bool)o.p.retain, false}); return true; } // written before the gateway noticed that the broker has closed
        if (o.conn != conn) w.fail(T, "packet on an old connection of the proxy: " + mq::str(o.p));
        switch (o.p.type) {
        case mq::PINGREQ: { int cn = o.conn; if (pol != 4) w.later.push_back([this, cn] { if (sim::connOpen(cn)) w.sendMq(cn, mk::mack(mq::PINGRESP, 0)); }); else mute = true; w.count("proxy_ping"); return true; }
        case mq::PUBLISH: {
            QMsg m{sn::S(o.p.topic), o.p.payload, (bool)o.p.retain, false};
            if (o.p.qos || o.p.dup) w.fail(T, "the proxy published with QoS " + std::to_string(o.p.qos) + (o.p.dup ? " and DUP" : "") + ": " + mq::str(o.p));
            if (accepted) got(m); else if (!race) w.fail(T, "the proxy published before the broker accepted its connection: " + mq::str(o.p)); else early.push_back(m);
            return true; }
        case mq::DISCONNECT: return true;
        }
        w.fail(T, "unexpected packet on the connection of the proxy: " + mq::str(o.p));
    }
    Str table(const Str& cid, int tid) { for (auto& l : w.cfg.topics) { size_t a = l.find(','), b = l.rfind(','); if ((l.substr(0, a) == cid || l.substr(0, a) == "*") && atoi(l.c_str() + b + 1) == tid) return l.substr(a + 1, b - a - 1); } return ""; }
    std::vector<int> idsOf(const Str& cid) { std::vector<int> v; for (auto& l : w.cfg.topics) { size_t a = l.find(','), b = l.rfind(','); if (l.substr(0, a) == cid || l.substr(0, a) == "*") v.push_back(atoi(l.c_str() + b + 1)); } return v; }
    void publish(bool maybe) { // one message of a registered client
        if (sent.size() >= 60 || pubs.empty()) return;
        auto& p = r.pick(pubs); auto v = idsOf(p.first); QMsg m; m.retain = r.chance(30); m.maybe = maybe; m.data = md.payload(r.chance(70) ? 80 : 1015); sn::Pkt q;
        if (!v.empty() && r.chance(60)) { int t = r.pick(v); m.topic = table(p.first, t); q = mk::publish(1, t, "", 0, 3, m.data, m.retain); }
        else { m.topic = md.shortName(); q = mk::publish(2, 0, m.topic, 0, 3, m.data, m.retain); }
        sent.push_back(m); md.viaSn(p.second, q); w.count("qosm1");
    }
    void silent() { // nothing may come of them either
        if (pubs.empty()) return;
        auto& p = r.pick(pubs); md.viaSn(p.second, mk::publish(2, 0, md.shortName(), 0, 3, md.payload(60))); w.count("no_tls_checked");
    }
    void noise() { // nothing may come of these
        if (pubs.empty()) return;
        auto& p = r.pick(pubs); NetAddr a = p.second; Bytes d = md.payload(60); sn::Pkt q;
        switch (r.below(9)) {
        case 0: { int t; do t = r.range(1, 65534); while (!table(p.first, t).empty()); q = mk::publish(1, t, "", 0, 3, d); break; }   // not listed for it
        case 1: q = mk::publish(0, r.range(1, 30), "", 0, 3, d); break;                                                              // it has no normal ids
        case 2: q = mk::publish(2, 0, md.shortName(), md.msgId(), 1 + r.below(2), d); break;
        case 3: q = mk::publish(2, 0, md.shortName(), 0, 0, d); break;
        case 4: switch (r.below(5)) { case 0: q = mk::reg(0, 5, "some/topic"); break; case 1: q = mk::sub(7, 1, 0, 0, "some/topic"); break; case 2: q = mk::pingreq(p.first); break; case 3: q = mk::disc(-1); break; default: q = mk::ack(sn::PUBREL, 9); } break;
        case 5: case 6: { NetAddr b = a; if (r.chance(50)) b.port ^= 1 << r.below(4); else b.ip ^= 1 << r.below(10); if (b == a || md.used.count(b)) return; bool mine = false; for (auto& x : all) mine |= x.second == b; if (mine) return; auto v = idsOf(p.first); q = v.empty() || r.chance(50) ? mk::publish(2, 0, md.shortName(), 0, 3, d) : mk::publish(1, r.pick(v), "", 0, 3, d); a = b; break; } // not registered
        case 7: { MC* c = nullptr; for (auto x : md.cs) if (x->st == MC::ACTIVE && !(md.busy[x] & 1)) c = x; if (!c) return; // a connected client: on its own connection
            Str t = md.shortName(); bool rt = r.chance(30); w.tag = T + ",C08"; w.stream = 0; md.viaSn(*c, mk::publish(2, 0, t, 0, 3, d, rt)); w.expMq(c->conn, mk::mpub(t, 0, 0, d, rt)); w.count("qosm1_connected"); return; }
        default: { MC* c = nullptr; for (auto x : md.cs) if (x->st == MC::DISC) c = x; if (!c) return; w.tag = T + ",C13"; w.stream = 1; md.viaSn(*c, mk::publish(2, 0, md.shortName(), 0, 3, d)); w.expSn(c->a, mk::disc(-1)).optional = true; w.stream = 0; return; }
        }
        md.viaSn(a, q); w.count("noise_checked");
    }
    void judge(bool fault) {
        if (fault || !accepted || !sim::connOpen(conn)) return;
        if (mute) { bool left = false; for (auto& m : sent) left |= !m.maybe; if (left) { w.advance(15000000); w.check(); if (!accepted || !sim::connOpen(conn)) return; } } // the gateway may just have given the connection up
        for (auto& m : sent) if (!m.maybe) w.fail(T, "a QoS -1 message was not published by the connected proxy: topic " + sn::show(sn::B(m.topic)) + " payload " + sn::show(m.data, 40));
        sent.clear();
    }
};
static void tlsQm1Cfg(Cfg& c, Rng& r) {
    qm1Cfg(c, r); c.tls = true; c.host = "broker.test"; c.clientCert = r.chance(90); if (r.chance(30)) c.securePort = std::to_string(r.range(2000, 60000));
    for (auto& l : c.clients) if (l[0] != '#' && l.find("QoS-1") != Str::npos && r.chance(60)) keyword(l, r, "secureConnection");
}
// The gateway has one proxy, and a second one for publishers marked secureConnection.
static void proxies(World& w, const char* tags) {
    w.settleUs = 1200000; // a rejected proxy comes back every two seconds
    Rng& r = w.r; Mix m; m.batch = 1 + r.below(8); m.progress = 12; m.pub = 8; m.down = 5; m.sub = 3; m.reg = 3; m.ping = 1; m.disc = 1; m.reconnect = 2; m.maxPayload = 100; Model md(w, m); 
    Proxy plain(md, false), secure(md, true); std::vector<Proxy*> P{&plain}; if (w.cfg.tls && w.cfg.clientCert) P.push_back(&secure); 
    auto inner = w.onlineMq; w.onlineMq = [&](MqOut& o) { for (auto x : P) if (x->out(o)) return true; return inner(o); };
    for (auto& l : w.cfg.clients) if (l[0] != '#' && l.find("QoS-1") != Str::npos) { (l.find("secureConnection") != Str::npos ? secure : plain).pubs.push_back({l.substr(0, l.find(',')), at(l)}); md.used.insert(at(l)); }
    std::vector<std::pair<Str, NetAddr>> all = plain.pubs; all.insert(all.end(), secure.pubs.begin(), secure.pubs.end()); plain.all = secure.all = all;
    Str T = tags; plain.T = secure.T = T; auto tagSn = w.tagSn; w.tagSn = [&, tagSn](const SnOut& o) { Str t = tagSn(o); for (auto& p : all) if (p.second == o.to) t += "," + T; return t; };
    auto tagMq = w.tagMq; w.tagMq = [&, tagMq](const MqOut& o) { return tagMq(o) + (o.p.type == mq::PUBLISH ? "," + T : ""); };
    auto cp = w.connectPolicy; w.connectPolicy = [&, cp](int id) { Proxy& px = P.size() > 1 && w.connectPort == w.cfg.securePort ? secure : plain; if (px.refuse > 0) { px.refuse--; w.count("proxy_refused"); if (px.sec && r.chance(60)) { w.count("bad_broker_checked"); return 1000 + r.range(2, tls::NCERT - 1); } static const int e[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH}; return e[r.below(3)]; } return cp(id); };
    int n = r.below(4); for (int i = 0; i < n; i++) { Str id; bool own; do { id = md.clientId(); own = false; for (auto& p : all) own |= p.first == id; } while (own || id == "fwd0"); md.add(id, md.addr()); }
    static const int pols[] = {0, 0, 1, 2, 3}; auto pub = [&](Proxy& px, bool maybe) { px.publish(maybe); };
    auto judge = [&](Proxy* skip = nullptr) { for (auto x : P) if (x != skip) x->judge(false); };
    auto unrefuse = [&](int n) { auto any = [&] { bool a = false; for (auto x : P) a |= x->refuse > 0; return a; }; for (int i = 0; i < n && any(); i++) { w.advance(15000000); w.check(); } for (auto x : P) x->refuse = 0; };
    for (auto x : P) { x->pol = pols[r.below(5)]; if (r.chance(30)) x->refuse = 1 + r.below(3); if (r.chance(60)) for (int i = r.below(8); i > 0; i--) pub(*x, false); } // at once after the start
    if (plain.refuse || secure.refuse) { md.flush(); judge(); unrefuse(6); }
    md.flush(); for (auto c : md.cs) md.connect(*c, r.chance(70));
    judge();
    int steps = r.range(5, 16);
    for (int s = 0; s < steps; s++) {
        bool fault = false;
        int k = r.below(10); Proxy& px = *P[r.below((uint32_t)P.size())];
        if (px.accepted && k == 0) { // the broker ends the connection; whatever is under way at this time may be lost
            fault = true; for (int i = r.below(4); i > 0; i--) px.publish(true);
            int cn = px.conn; bool reset = r.chance(40); NetAddr key; key.ip = (uint32_t)cn; md.via(1, key, [&, cn, reset] { w.note("BR c%d closed by the broker%s", cn, reset ? " (reset)" : ""); px.gone.insert(cn); px.accepted = false; px.conn = -1; px.open = false; sim::brokerClose(cn, reset); });
            for (int i = r.below(4); i > 0; i--) px.publish(true);
            px.pol = pols[r.below(5)]; md.flush(); w.count("proxy_lost");
            if (r.chance(30)) { px.refuse = 1 + r.below(2); unrefuse(4); }
        } else if (k == 1) { w.advance(r.range(1, r.chance(30) ? 2000 : 20) * 1000000ll); w.check(); w.count("idle"); }
        else if (k <= 3) px.pol = pols[r.below(5)];
        else if (k == 4 && px.accepted) { // the broker does not answer any more: sooner or later the proxy tries another connection
            px.pol = 4; int cn = px.connects; w.advance(905000000); w.check();
            for (int i = r.below(2) ? 30 : r.below(6); i > 0 && px.connects == cn; i--) { if (r.chance(20)) px.publish(false); w.advance(r.range(1, 12) * 1000000ll); if (md.cs.empty()) md.flush(); else w.check(); }
            if (px.connects != cn) { w.count("proxy_gave_up"); for (int i = r.below(4); i > 0; i--) px.publish(false); } else px.pol = 0;
            if (px.pendingConnack) px.connack(0);
        }
        for (auto x : P) if (x->pendingConnack && r.chance(60)) x->connack(r.chance(75) ? 0 : 1 + r.below(5));
        for (auto x : P) for (int i = r.below(r.chance(20) ? 25 : 6); i > 0; i--) pub(*x, false);
        for (int i = r.below(3); i > 0; i--) px.noise();
        if (P.size() == 1 && r.chance(30)) secure.silent(); // marked secureConnection but the gateway has no certificate for it
        if (md.cs.empty()) md.flush(); else md.round();
        (void)fault; judge();
        for (auto x : P) w.state(fnv("qm1", 3, (x->accepted ? 1 : 0) + 2 * x->pol + 16 * (x->sent.size() > 0) + 32 * (x->sent.size() > 10) + 64 * x->sec));
    }
    for (auto x : P) { x->pol = 0; if (x->pendingConnack) x->connack(0); } // from now on the broker accepts
    auto ok = [&](bool sent) { bool o = true; for (auto x : P) o &= x->accepted && (sent ? x->sent.empty() : sim::connOpen(x->conn)); return o; };
    for (int i = 0; i < 12 && !ok(true); i++) { md.flush(); judge(); if (ok(false)) break; w.advance(10000000); w.check(); }
    for (auto x : P) if (!x->accepted) w.fail(T, "the proxy does not connect to the broker any more although it accepts connections (" + std::to_string(x->sent.size()) + " messages are waiting)");
    for (auto x : P) for (int i = 0; i < 3; i++) pub(*x, false);
    md.flush(); judge();
    w.pass();
}
SCENARIO(qosminus1, "C18", qm1Cfg, "registered and other publishers of QoS -1 messages; proxy connection accepted late, rejected, refused, lost, idle; ordinary clients run along") { proxies(w, "C18"); }
SCENARIO(tlsqosminus1, "C31", tlsQm1Cfg, "QoS -1 publishers of which some are marked secureConnection: two proxies, one of them over TLS; impostors; certificates not configured") { proxies(w, "C18,C31"); }
