// Scenarios on the plain gateway: one mix of operations per property.
#include "model.h"
typedef MClient MC;
static void noCfg(Cfg& c, Rng& r) {}
static Str rword(Rng& r, int n) { Str s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[r.below(64)]; return s; }
static void connCfg(Cfg& c, Rng& r) { if (r.chance(50)) { c.login = rword(r, r.range(1, 20)); if (r.chance(70)) c.password = rword(r, r.range(1, 30)); } if (r.chance(30)) c.mqttVersion = 3 + r.below(2); c.gwName = rword(r, r.range(1, 20)); c.gwId = r.range(1, 255); if (r.chance(20)) { c.host = "10.1.2.3"; c.port = std::to_string(r.range(1, 65535)); } }
static int pick(Rng& r, std::initializer_list<int> v) { return *(v.begin() + r.below((uint32_t)v.size())); }
static Mix base(Rng& r) { Mix m; m.batch = pick(r, {1, 3, 6, 12}); m.progress = 12; return m; }
static void clients(Model& md, int lo, int hi) { int n = md.r.range(lo, hi); md.m.prefill = md.r.below(5); for (int i = 0; i < n; i++) md.add(md.clientId(), md.addr()); md.connectAll(); }

SCENARIO(uplink, "C08", noCfg, "clients publish with every topic form, QoS and size; other traffic runs along") {
    Mix m = base(w.r); m.pub = 30; m.pubUnknown = 8; m.reg = 4; m.sub = 2; m.down = 4; m.ping = 1; m.reconnect = 2; m.resend = 3; Model md(w, m); clients(md, 1, 4); md.runRounds(w.r.range(4, 14)); w.pass();
}
SCENARIO(downlink, "C09", noCfg, "the broker publishes on known and new topics of all forms, sizes and QoS; REGISTER exchanges answered, delayed and rejected") {
    Mix m = base(w.r); m.down = 24; m.downNew = 12; m.downReject = 3; m.downBig = 1; m.sub = 6; m.pub = 4; m.reg = 3; m.unsub = 1; m.resend = 3; Model md(w, m); clients(md, 1, 4); md.runRounds(w.r.range(4, 14)); w.pass();
}
SCENARIO(qosflow, "C10", noCfg, "every acknowledgement exchange in both directions, steps of many exchanges interleaved, steps retransmitted") {
    Mix m = base(w.r); m.pub = 14; m.down = 12; m.sub = 6; m.unsub = 3; m.progress = 45; m.resend = 10; m.forget = 3; m.subBad = 1; m.maxPayload = 60; Model md(w, m); clients(md, 1, 3); md.runRounds(w.r.range(6, 20)); w.pass();
}
SCENARIO(topicids, "C11", noCfg, "REGISTER, SUBSCRIBE, UNSUBSCRIBE and broker PUBLISH on old and new names over sessions that end and start again") {
    Mix m = base(w.r); m.reg = 14; m.sub = 10; m.unsub = 4; m.downNew = 8; m.pub = 8; m.pubUnknown = 4; m.disc = 2; m.reconnect = 4; m.takeover = 1; m.maxPayload = 60; Model md(w, m); if (w.r.chance(20)) { md.m.full = true; md.m.reconnect = 1; } clients(md, 1, md.m.full ? 2 : 4);
    if (md.m.full) { MC* c = md.cs[0]; for (int i = 0; i < 200 && md.tableUse(*c) < 41 + (int)w.r.below(10); i++) { md.busy.clear(); md.opReg(*c); if (c->regMid.size() > 8) md.flush(); } md.flush(); }
    md.runRounds(w.r.range(6, 20)); w.pass();
}
SCENARIO(isolation, "C12", noCfg, "three to eight clients with confusable ids, reused and exchanged addresses, sleepers, lost connections") {
    Mix m = base(w.r); m.pub = 10; m.down = 10; m.sub = 3; m.reg = 3; m.downNew = 4; m.disc = 1; m.reconnect = 3; m.takeover = 3; m.steal = 3; m.sleep = 2; m.wake = 3; m.wakeSlow = 1; m.downSleep = 3; m.brokerClose = 1; m.maxPayload = 200; Model md(w, m); clients(md, 3, 8); md.runRounds(w.r.range(6, 16)); w.pass();
}
SCENARIO(lifecycle, "C13", connCfg, "connects, disconnects, takeovers, refused and rejected connections, connections lost, packets of strangers and of disconnected clients") {
    Mix m = base(w.r); m.disc = 4; m.reconnect = 8; m.takeover = 3; m.steal = 2; m.rejectConn = 15; m.refuse = 1; m.brokerClose = 3; m.probe = 5; m.stranger = 2; m.pub = 3; m.down = 3; m.will = 2; m.willUpd = 1; m.willStray = 1; m.sleep = 2; m.wake = 1; m.wakeConnect = 1; m.wakeSlow = 1; m.maxPayload = 60; Model md(w, m); clients(md, 1, 4); md.runRounds(w.r.range(6, 20)); w.pass();
}
SCENARIO(wills, "C14", connCfg, "connects with and without will, will exchanges interrupted, repeated and changed") {
    Mix m = base(w.r); m.batch = 1 + w.r.below(3); m.will = 10; m.willUpd = 3; m.willStray = 4; m.probe = 1; m.disc = 3; m.reconnect = 4; m.pub = 2; m.rejectConn = 10; m.brokerClose = 1; Model md(w, m); clients(md, 1, 3); md.runRounds(w.r.range(5, 14)); w.pass();
}
SCENARIO(sleeping, "C15", noCfg, "clients sleep, get messages, wake by PINGREQ or CONNECT at once, late or while messages arrive, and sleep again") {
    Mix m = base(w.r); m.sleep = 6; m.wake = 6; m.wakeRace = 2; m.wakeConnect = 3; m.wakeSlow = 3; m.downSleep = 14; m.down = 6; m.downNew = 2; m.reg = 2; m.pub = 3; m.sub = 3; m.brokerClose = 1; m.disc = 1; m.reconnect = 3; Model md(w, m); clients(md, 1, 3); md.runRounds(w.r.range(8, 24)); w.pass();
}

SCENARIO(pings, "C26", noCfg, "PINGREQ/PINGRESP of several clients mixed with everything else, long idle times") {
    Mix m = base(w.r); m.ping = 20; m.pub = 5; m.down = 5; m.sub = 2; m.disc = 1; m.reconnect = 3; m.sleep = 3; m.wake = 2; m.wakeConnect = 2; m.wakeSlow = 3; m.downSleep = 3; m.idlePct = 15; m.idleMax = 3000; m.maxPayload = 60; Model md(w, m); clients(md, 1, 5); md.runRounds(w.r.range(6, 20)); w.pass();
}
static void advCfg(Cfg& c, Rng& r) { c.gwId = r.range(1, 255); c.keepAlive = pick(r, {1, 2, 5, 10, 60, 900, 256, 1000, 65535}); if (r.chance(30)) c.keepAlive = r.range(1, 65535); }
SCENARIO(discovery, "C24", advCfg, "SEARCHGW from anywhere with other traffic, ADVERTISE intervals in virtual time") {
    Mix m = base(w.r); m.search = 20; m.pub = 6; m.down = 4; m.ping = 2; m.reconnect = 2; m.disc = 1; m.maxPayload = 60; m.idlePct = 60; m.idleMax = std::min(w.cfg.keepAlive * 3, 20000); Model md(w, m); clients(md, 1, 3); md.runRounds(w.r.range(4, 12));
    if (w.cfg.keepAlive <= 60 && w.r.chance(50)) { // never idle for as long as the gateway waits for input
        int gap = w.r.range(50, 900), n = (w.cfg.keepAlive + 8) * 1000 / gap + 1; NetAddr a = md.addr(); w.tag = "C24";
        for (int i = 0; i < n; i++) { Bytes q = sn::enc(mk::simple(sn::SEARCHGW)); w.later.push_back([&w, a, q] { w.sendRaw(a, q, true); }); w.later.push_back([&w, gap] { w.pauseFor(gap * 1000ll); }); sn::Pkt g = mk::simple(sn::GWINFO); g.gwId = w.cfg.gwId; w.stream = 1000 + i; w.expSn(w.mcast, g); w.stream = 0; }
        md.flush(); w.count("busy_interval_checked");
    }
    if (w.cfg.keepAlive < 3000) for (int i = 0; i < 3; i++) { w.advance(w.cfg.keepAlive * 1300000ll); w.check(); }
    else if (w.r.chance(20)) { w.advance(w.cfg.keepAlive * 2100000ll); w.check(); }
    w.pass();
}
// ---- configured clients
static void authCfg(Cfg& c, Rng& r) {
    c.auth = true; int n = r.range(1, 5); std::set<Str> ids, as;
    for (int i = 0; i < n; i++) {
        Str id = !ids.empty() && r.chance(40) ? *ids.begin() + rword(r, 1 + r.below(2)) : rword(r, 1 + r.below(20)); if (!ids.insert(id).second) continue;
        Str a; do a = "10." + std::to_string(r.below(3)) + ".0." + std::to_string(1 + r.below(200)) + ":" + std::to_string(r.chance(50) && !as.empty() ? 5000 : 1025 + r.below(60000)); while (!as.insert(a).second);
        if (r.chance(20)) c.clients.push_back(r.chance(50) ? "# comment" : "");
        c.clients.push_back((r.chance(20) ? " " : "") + id + (r.chance(20) ? " , " : ",") + a + (r.chance(20) ? ",unstableLine" : ""));
    }
    c.maxClients = r.chance(50) ? 30 : (int)ids.size() + r.below(2);
}
static NetAddr parseAddr(const Str& s) { NetAddr a; unsigned b[4] = {0}, p = 0; sscanf(s.c_str(), "%u.%u.%u.%u:%u", b, b + 1, b + 2, b + 3, &p); a.ip = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; a.port = (uint16_t)p; return a; }
struct Line { Str id, addr, rest; };
static std::vector<Line> lines(World& w) {
    std::vector<Line> v; for (auto l : w.cfg.clients) { Str s; for (char ch : l) if (ch != ' ') s += ch; if (s.empty() || s[0] == '#') continue; size_t a = s.find(','), b = s.find(',', a + 1); v.push_back({s.substr(0, a), s.substr(a + 1, b == Str::npos ? b : b - a - 1), b == Str::npos ? "" : s.substr(b)}); }
    return v;
}
SCENARIO(authentication, "C16", authCfg, "listed clients at work while unlisted ids, foreign addresses and exchanged ids try to connect") {
    Mix m = base(w.r); m.pub = 4; m.down = 4; m.sub = 2; m.reg = 2; m.disc = 2; m.reconnect = 5; m.sleep = 1; m.wake = 1; m.wakeConnect = 1; m.probe = 1; m.will = 1; m.stranger = 1; m.claim = "C16"; m.maxPayload = 60; Model md(w, m);
    auto ls = lines(w); std::set<NetAddr> la; for (auto& l : ls) { MC* c = md.add(l.id, parseAddr(l.addr)); la.insert(c->a); }
    Rng& r = w.r; w.run();
    auto intrude = [&](int k) {
        for (int i = 0; i < k; i++) {
            Str id; NetAddr a; MC* c = r.pick(md.cs); w.tag = "C16";
            switch (r.below(5)) {
            case 0: id = md.clientId(); a = md.addr(); break;                       // unknown id, unknown address
            case 1: id = c->id; a = md.addr(); break;                                // listed id, foreign address
            case 2: id = md.clientId(); a = c->a; break;                             // listed address, unknown id
            case 3: { MC* d = r.pick(md.cs); if (d == c) continue; id = c->id; a = d->a; break; } // another client's address
            default: id = c->id; a = c->a; if (r.chance(50)) a.port = (uint16_t)(a.port < 65000 ? a.port + 1 : a.port - 1); else a.ip ^= 1 << r.below(16); if (la.count(a)) continue; md.used.insert(a); }
            w.count("intruder_checked");
            if (la.count(a)) { md.viaSn(a, mk::connect(id, r.range(1, 100), r.chance(50), r.chance(20))); continue; }
            md.viaSn(a, mk::connect(id, r.range(1, 100), r.chance(50), r.chance(20)));
            if (r.chance(30)) md.viaSn(a, mk::willtopic("will/topic", 1, false));
            if (r.chance(30)) md.viaSn(a, mk::willmsg(md.payload(30)));
            if (r.chance(30)) md.viaSn(a, mk::publish(2, 0, "ab", 3, r.below(3), md.payload(30)));
            if (r.chance(20)) md.viaSn(a, mk::pingreq(id));
        }
    };
    if (r.chance(50)) { intrude(1 + r.below(3)); md.flush(); }
    for (auto c : md.cs) { if (r.chance(20)) { intrude(1); } md.connect(*c, r.chance(70)); if (r.chance(50)) { intrude(1 + r.below(2)); md.flush(); } }
    for (int i = r.range(4, 12); i > 0; i--) { if (r.chance(60)) intrude(1 + r.below(3)); md.round(); }
    w.pass();
}
static void tlsCfg(Cfg& c, Rng& r) {
    authCfg(c, r); c.tls = true; c.maxClients = 30; c.host = r.chance(15) ? "broker" : "broker.test"; c.noCa = r.chance(94) ? 0 : 1 + r.below(2); c.clientCert = r.chance(40); if (r.chance(30)) c.securePort = std::to_string(r.range(2000, 60000)); bool any = false;
    for (auto& l : c.clients) if (!l.empty() && l[0] != '#' && (r.chance(75) || !any)) { keyword(l, r, "secureConnection"); any = true; }
}
SCENARIO(tls, "C31", tlsCfg, "clients with and without secureConnection; the broker speaks TLS 1.2 or 1.3, with session tickets, shared and split records, key updates, closes with and without notice; impostors and broken peers") {
    Mix m = base(w.r); m.pub = 10; m.down = 10; m.sub = 4; m.downNew = 3; m.unsub = 1; m.reg = 2; m.ping = 3; m.disc = 2; m.reconnect = 5; m.refuse = 3; m.brokerClose = 3; m.sleep = 2; m.wake = 3; m.downSleep = 2; m.will = 1; m.probe = 1; m.rejectConn = 8; m.split = w.r.chance(30); m.claim = "C31"; Model md(w, m);
    for (auto& l : lines(w)) { MC* c = md.add(l.id, parseAddr(l.addr)); c->secure = l.rest.find("secureConnection") != Str::npos; c->noTrust = c->secure && w.cfg.noCa; }
    w.run(); for (auto c : md.cs) if (!c->noTrust) md.connect(*c, w.r.chance(70));
    md.runRounds(w.r.range(5, 16)); w.pass();
}
static void fewCfg(Cfg& c, Rng& r) { c.maxClients = r.range(1, 5); if (r.chance(30)) { c.qosm1 = true; c.clientsFile = true; int n = r.below(std::min(c.maxClients, 3)); for (int i = 0; i < n; i++) c.clients.push_back("qm" + std::to_string(i) + ",10.200.0." + std::to_string(i + 1) + ":7000,QoS-1"); } }
SCENARIO(maxclients, "C16", fewCfg, "more clients than MaxNumberOfClients arrive, alone or together") {
    Rng& r = w.r; Mix m = base(r); m.pub = 4; m.down = 4; m.sub = 2; m.reg = 2; m.disc = 2; m.reconnect = 5; m.brokerClose = 1; m.takeover = 1; m.sleep = 1; m.wake = 1; m.claim = "C16"; m.maxPayload = 60; Model md(w, m);
    md.ignoreId.insert(w.cfg.gwName + "_QoS-1"); int slots = w.cfg.maxClients - (int)w.cfg.clients.size();
    for (int i = 0; i < slots; i++) md.add(md.clientId(), md.addr());
    w.run();
    if (md.cs.empty()) { w.run(); }
    bool together = r.chance(40) && !md.cs.empty();
    if (together) { for (auto c : md.cs) md.startConnect(*c, true, false); md.flush(); for (auto c : md.cs) md.finishConnect(*c, 0); md.flush(); }
    else for (auto c : md.cs) md.connect(*c, r.chance(70));
    auto extra = [&](int k) { for (int i = 0; i < k; i++) { NetAddr a = md.addr(); bool will = r.chance(20); md.viaSn(a, mk::connect(md.clientId(), r.range(1, 100), r.chance(50), will)); // refused: no answer or a rejection
            w.tag = "C16"; w.stream = 1000 + i; sn::Pkt e = mk::rcp(sn::CONNACK, -1); w.expSn(a, e, nullptr, [](const sn::Pkt& g) { return g.rc == 0 ? Str("more clients than the maximum were accepted") : Str(); }).optional = true; w.stream = 0;
            if (r.chance(30)) { md.viaSn(a, mk::publish(2, 0, "ab", 3, 1, md.payload(30))); sn::Pkt d = mk::disc(-1); w.expSn(a, d).optional = true; }
            w.count("refused_checked"); } };
    extra(1 + r.below(4)); md.flush();
    for (int i = r.range(3, 10); i > 0; i--) { if (r.chance(50)) extra(1 + r.below(3)); if (md.cs.empty()) md.flush(); else md.round(); }
    w.pass();
}
// ---- forwarders
static void fwdCfg(Cfg& c, Rng& r) {
    c.fwd = true; int n = r.chance(60) ? r.range(1, 3) : r.range(4, 7); for (int i = 0; i < n; i++) c.clients.push_back("fwd" + std::to_string(i) + ",10.9." + std::to_string(r.below(2)) + "." + std::to_string(10 + i) + ":" + std::to_string(4000 + (r.chance(50) ? i : 0)) + ",forwarder");
}
static void useForwarders(Model& md) { for (auto& l : lines(md.w)) if (l.rest.find("forwarder") != Str::npos) { md.fwds.push_back(parseAddr(l.addr)); md.used.insert(md.fwds.back()); } }
SCENARIO(forwarder, "C17", fwdCfg, "clients behind forwarders and direct ones; every kind of traffic; frames from strangers", true) {
    Rng& r = w.r; Mix m = base(r); m.pub = 10; m.down = 10; m.downNew = 4; m.sub = 4; m.unsub = 2; m.reg = 4; m.ping = 3; m.disc = 2; m.reconnect = 4; m.takeover = 2; m.sleep = 3; m.wake = 4; m.wakeConnect = 1; m.downSleep = 4; m.probe = 2; m.will = 1; m.search = 1; m.badFrame = 4; m.rejectConn = 10; m.refuse = 0; m.maxPayload = 880; Model md(w, m);
    m.pubUnknown = 2; useForwarders(md);
    if (w.alt) md.m.badFrame = 0;
    int n = r.range(1, 4); for (int i = 0; i < n; i++) md.addFwd(md.clientId()); n = r.below(3); for (int i = 0; i < n; i++) { md.add(md.clientId(), md.addr()); }
    md.connectAll(); md.runRounds(r.range(5, 15)); w.pass();
}
// ---- predefined topics
static void predefCfg(Cfg& c, Rng& r) {
    c.predef = true; int nc = r.range(1, 4); std::map<Str, std::map<int, Str>> per; std::vector<Str> names;
    std::vector<Str> ids; for (int i = 0; i < nc; i++) ids.push_back(i && r.chance(40) ? ids[0] + rword(r, 1) : r.chance(8) ? "*" + rword(r, 1 + r.below(3)) : rword(r, 2 + r.below(10))); ids.push_back("*");
    int n = r.chance(20) ? r.range(40, 120) : r.range(1, 20);
    for (int i = 0; i < n; i++) {
        Str id = r.pick(ids); auto& mp = per[id]; if ((int)mp.size() >= (id == "*" ? 48 : 20)) continue;
        int t = r.chance(50) ? r.range(1, 12) : r.chance(20) ? 65535 - (int)r.below(3) : r.range(1, 65534); if (t == 65535) t = 65534; 
        if (mp.count(t) || per["*"].count(t) || (id == "*" && [&] { for (auto& p : per) if (p.second.count(t)) return true; return false; }())) continue;
        Str nm = !names.empty() && r.chance(25) ? r.pick(names) : "p/" + rword(r, 1 + r.below(r.chance(10) ? 90 : 15)) + (r.chance(30) ? "/\xc3\xa9" : ""); names.push_back(nm); bool dup = false; for (auto& p : mp) if (p.second == nm) dup = true; for (auto& p : per["*"]) if (p.second == nm) dup = true; if (id == "*") for (auto& q : per) for (auto& p : q.second) if (p.second == nm) dup = true;
        if (dup && !r.chance(15)) continue; if (dup) { bool same = false; for (auto& p : mp) if (p.second == nm) same = true; if (!same) continue; }
        mp[t] = nm; if (r.chance(10)) c.topics.push_back(r.chance(50) ? "# comment,line,7" : ""); 
        c.topics.push_back(id + "," + nm + "," + std::to_string(t));
    }
    c.extra = ""; c.gwName = "GW"; c.maxClients = 30;
}
SCENARIO(predefined, "C21", predefCfg, "generated predefined topic files; the listed ids and others used by the listed clients and others") {
    Rng& r = w.r; Mix m = base(r); m.pub = 20; m.pubUnknown = 6; m.sub = 12; m.subBad = 5; m.unsub = 3; m.down = 14; m.reg = 4; m.downNew = 4; m.downReject = 2; m.disc = 1; m.reconnect = 4; m.takeover = 1; m.maxPayload = 200; m.prefill = r.below(3); Model md(w, m);
    std::set<Str> ids; for (auto& l : w.cfg.topics) { if (l.empty() || l[0] == '#') continue; ids.insert(l.substr(0, l.find(','))); } ids.erase("*");
    for (auto& i : ids) md.add(i, md.addr()); int n = r.below(3); if (md.cs.empty()) n = 2; for (int i = 0; i < n; i++) md.add(md.clientId(), md.addr());
    md.connectAll(); md.runRounds(r.range(5, 16)); w.pass();
}
// ---- TCP segmentation
SCENARIO(segments, "C07", noCfg, "broker streams cut at every kind of place, coalesced, octet by octet and with pauses; the same case with whole packets is the reference", true) {
    Rng& r = w.r; Mix m = base(r); m.down = 20; m.downNew = 5; m.sub = 4; m.unsub = 2; m.reg = 3; m.pub = 6; m.ping = 3; m.progress = 20; m.disc = 1; m.reconnect = 3; m.rejectConn = 10; m.sleep = 2; m.downSleep = 4; m.wake = 3; m.wakeRace = 1; m.downBig = 1; m.split = true; m.claim = "C07";
    int sm = r.below(4); w.segMode = w.alt ? 0 : sm == 3 ? 0 : sm; Model md(w, m); clients(md, 1, 4); md.runRounds(r.range(4, 12)); w.pass();
}
