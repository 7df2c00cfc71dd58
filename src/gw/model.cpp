#include "model.h"
#include "../sim/tls.h"
#include <errno.h>
#include <algorithm>
typedef MClient MC;

bool filterMatch(const Str& f, const Str& n) {
    std::vector<Str> a, b; auto split = [](const Str& s, std::vector<Str>& v) { size_t i = 0; while (true) { size_t e = s.find('/', i); v.push_back(s.substr(i, e == Str::npos ? Str::npos : e - i)); if (e == Str::npos) break; i = e + 1; } };
    split(f, a); split(n, b);
    for (size_t i = 0;; i++) {
        if (i < a.size() && a[i] == "#") return true;
        if (i >= a.size() || i >= b.size()) return i >= a.size() && i >= b.size();
        if (a[i] != "+" && a[i] != b[i]) return false;
    }
}
Bytes nodeId(Rng& r, int i) { Bytes b; int n = 1 + r.below(8); for (int k = 0; k < n; k++) b.push_back((uint8_t)r.next()); if (r.chance(30)) b[0] = 0; b.push_back((uint8_t)i); return b; }

Model::Model(World& w, const Mix& m) : w(w), r(w.r), m(m) {
    sr = Rng(w.r.s ^ 0x777);
    w.onlineSn = [this](SnOut& o) { return snOut(o); };
    w.onlineMq = [this](MqOut& o) { return mqOut(o); };
    w.tagSn = [this](const SnOut& o) {
        Str t = natTag(o.p); auto it = byAddr.find(o.to);
        if (it != byAddr.end()) { MC& c = *it->second; if (c.st == MC::ASLEEP || c.st == MC::AWAKE) t += ",C15"; if (!c.rtag.empty()) t += "," + c.rtag; if (!c.sessTag.empty()) t += "," + c.sessTag; }
        else t += ",C12";
        return this->m.claim.empty() ? t : t + "," + this->m.claim; };
    w.tagMq = [this](const MqOut& o) {
        Str t = natTag(o.p); auto it = byConn.find(o.conn);
        if (it != byConn.end()) { MC& c = *it->second; if (c.st == MC::DISC || c.st == MC::CONNECTING || c.conn != o.conn) t += ",C13"; if (c.st == MC::ASLEEP || c.st == MC::AWAKE) t += ",C15"; if (!c.rtag.empty()) t += "," + c.rtag; if (!c.sessTag.empty()) t += "," + c.sessTag; }
        if (o.p.type == mq::PUBLISH) { auto u = unknownSent.find(o.p.payload); if (u != unknownSent.end()) t += u->second; }
        return this->m.claim.empty() ? t : t + "," + this->m.claim; };
    w.connectPolicy = [this](int) { if (refuseNext > 0) { refuseNext--; if (resetNext) return -1; if (badTls) return badTls; static const int e[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH}; return e[this->w.conns.size() % 4]; } return 0; };
    if (w.cfg.predef) for (auto& l : w.cfg.topics) { size_t a = l.find(','), b = l.rfind(','); Str id = l.substr(0, a); if (id == "*") common[atoi(l.c_str() + b + 1)] = l.substr(a + 1, b - a - 1); }
}
NetAddr Model::addr() { NetAddr a; do { a.ip = 10u << 24 | r.below(4) << 16 | r.below(3) << 8 | (1 + r.below(250)); a.port = (uint16_t)(1025 + r.below(60000)); if (!used.empty() && r.chance(40)) { NetAddr o = *used.begin(); if (r.chance(50)) a.ip = o.ip; else a.port = o.port; } } while (used.count(a) || a.ip >> 24 != 10 || a.port < 1024); used.insert(a); return a; }
Bytes Model::bytes(int n) { Bytes b(n); for (auto& x : b) x = (uint8_t)r.next(); return b; }
Str Model::word(int n) { Str s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"[r.below(64)]; return s; }
Bytes Model::payload(int max) {
    if (max < 0) max = m.maxPayload;
    int n; switch (r.below(9)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 230 + (int)r.below(40); break; case 3: n = r.range(0, max); break; case 4: n = 110 + (int)r.below(30); break; case 5: n = max - (int)r.below(8); break; default: n = 3 + r.below(60); }
    n = std::max(0, std::min(n, max)); Bytes b = bytes(n);
    if (n && r.chance(15)) for (auto& x : b) x = "%sn\0/#+\xff"[r.below(8)];
    return b;
}
Str Model::name(int maxLen) { // 3 octets or more, no wildcard, at least one octet that is not a level separator
    while (true) {
        int n; switch (r.below(6)) { case 0: n = 3; break; case 1: n = r.range(3, 6); break; case 2: n = m.longNames ? r.range(3, 300) : 12; break; default: n = r.range(4, 30); }
        n = std::min(n, maxLen); Str s;
        while ((int)s.size() < n) { int k = r.below(20); s += k == 0 ? Str("%s") : k == 1 ? Str("%n") : k == 2 ? Str(" ") : k == 3 ? Str("\xc3\xa9") : word(1 + r.below(8)); if ((int)s.size() < n - 1 && r.chance(60)) s += '/'; }
        s.resize(n); if ((s.back() & 0x80) || s.back() == ' ') s.back() = 'z'; if (s[0] == '/' && r.chance(80)) s[0] = 'x';
        if (s[0] == '$' || s[0] == ' ') s[0] = 'd';
        for (size_t i = 0; i + 1 < s.size(); i++) if ((uint8_t)s[i] == 0xc3 && (uint8_t)s[i + 1] != 0xa9) s[i] = 'q'; else if ((uint8_t)s[i + 1] == 0xa9 && (uint8_t)s[i] != 0xc3) s[i + 1] = 'q';
        if ((uint8_t)s[0] == 0xa9) s[0] = 'q';
        return s;
    }
}
Str Model::shortName() { Str s = word(2); if (r.chance(15)) s[r.below(2)] = '/'; if (r.chance(10)) { s[0] = (char)0xc3; s[1] = (char)0xa9; } if (s == "//") s = "/a"; return s; }
int Model::msgId() { switch (r.below(5)) { case 0: return 1 + r.below(3); case 1: return 0xFFFF - r.below(2); case 2: return 256 * r.range(1, 255); default: return r.range(1, 0xFFFF); } }
Str Model::clientId() {
    Str s;
    do {
        if (!byId.empty() && r.chance(40)) { auto it = byId.begin(); std::advance(it, r.below((uint32_t)byId.size())); s = it->first; switch (r.below(4)) { case 0: s += word(1 + r.below(3)); break; case 1: if (s.size() > 1) s.resize(s.size() - 1); break; case 2: s.back() = s.back() == 'Q' ? 'R' : 'Q'; break; default: s[0] = s[0] == 'Q' ? 'R' : 'Q'; } }
        else s = word(1 + r.below(m.longIds ? 60 : 22));
        if (r.chance(6)) s[r.below((uint32_t)s.size())] = '%';
        if ((int)s.size() > (m.longIds ? 64 : 23)) s.resize(m.longIds ? 64 : 23);
    } while (byId.count(s) || s == "*" || s.empty());
    return s;
}
MC* Model::add(const Str& id, const NetAddr& a, bool f) {
    MC* c = new MC; c->id = id; c->a = a; c->fwd = f; cs.push_back(c); byId[id] = c; byAddr[a] = c; used.insert(a);
    if (w.cfg.predef) for (auto& l : w.cfg.topics) { size_t x = l.find(','), b = l.rfind(','); if (l.substr(0, x) == id) c->predef[atoi(l.c_str() + b + 1)] = l.substr(x + 1, b - x - 1); }
    return c;
}
void Model::place(MC& c) { // gives the client a new place behind a forwarder
    NetAddr v = addr(), f = r.pick(fwds); Bytes n;
    while (true) {
        if (!nodes.empty() && r.chance(40)) { n = r.pick(nodes); switch (r.below(4)) { case 0: n.push_back((uint8_t)r.below(3)); break; case 1: if (n.size() > 1) n.pop_back(); break; case 2: n[0] ^= 1; break; default: break; } }
        else { n = bytes(r.chance(10) ? r.range(1, 200) : r.range(1, 8)); if (r.chance(25)) n[r.below((uint32_t)n.size())] = 0; }
        if (n.size() > 100) n.resize(100);
        if (!w.virt.count({f, n})) break;
        f = r.pick(fwds);
    }
    nodes.push_back(n); if (!w.alt) w.putBehind(v, f, n); else used.insert(v);
    if (c.a.port) byAddr.erase(c.a);
    c.a = v; c.fwd = true; byAddr[v] = &c;
}
MC* Model::addFwd(const Str& id) { MC* c = add(id, NetAddr()); byAddr.erase(NetAddr()); place(*c); c->sessTag = "C17"; return c; }
// ---------------------------------------------------------------- injection
void Model::via(int kind, const NetAddr& key, std::function<void()> f) {
    if (kind == 1 && splitBuf.count((int)key.ip)) cut((int)key.ip);
    auto k = std::make_pair(kind, key); auto it = srcOf.find(k); int i;
    if (it == srcOf.end()) { i = (int)src.size(); srcOf[k] = i; src.emplace_back(); } else i = it->second;
    src[i].push_back(f);
}
void Model::viaSn(const NetAddr& a, const sn::Pkt& p) { NetAddr k = a; auto it = w.behind.find(a); if (it != w.behind.end()) k = it->second.first; via(0, k, [this, a, p] { w.sendSn(a, p); }); }
void Model::cut(int conn) {
    auto v = splitBuf[conn]; splitBuf.erase(conn); NetAddr k; k.ip = (uint32_t)conn;
    Bytes all; std::set<size_t> bound; for (auto& b : v) { sn::cat(all, b); bound.insert(all.size()); }
    std::set<size_t> cuts = {all.size()};
    if (w.alt) cuts = bound; // the same packets, each in one piece
    else switch (sr.below(5)) {
        case 0: break;                                                           // everything at once
        case 1: if (all.size() < 300) for (size_t i = 1; i < all.size(); i++) cuts.insert(i); else { for (size_t i = 1; i < 40; i++) cuts.insert(i); } break; // octet by octet
        case 2: { size_t o = 0; for (size_t b : bound) { for (size_t i = 1; i < 4 && o + i < b; i++) if (sr.chance(60)) cuts.insert(o + i); o = b; if (sr.chance(50)) cuts.insert(b); } break; } // inside the fixed headers
        case 3: for (size_t b : bound) { cuts.insert(b); if (b > 1) cuts.insert(b - 1); } break;
        default: { int n = 1 + sr.below(8); while (n--) cuts.insert(1 + sr.below((uint32_t)all.size())); } }
    size_t o = 0;
    for (size_t c : cuts) {
        Bytes piece(all.begin() + o, all.begin() + c); bool b = bound.count(c) > 0; o = c; int64_t ps = !w.alt && c != all.size() && pauseLeft > 0 && sr.chance(8) ? (int64_t)sr.range(1, pauseLeft) * 1000 : 0; pauseLeft -= (int)(ps / 1000);
        via(1, k, [this, conn, piece, b, ps] { w.sendPiece(conn, piece, b); if (ps) w.pauseFor(ps); w.count("pieces"); });
    }
}
void Model::viaMq(int conn, const mq::Pkt& p) { if (m.split) { splitBuf[conn].push_back(mq::enc(p)); return; } NetAddr k; k.ip = (uint32_t)conn; via(1, k, [this, conn, p] { w.sendMq(conn, p); }); }
void Model::merge() { // what was prepared goes to the gateway in a random interleaving of its sources
    pauseLeft = 3500;
    while (!splitBuf.empty()) cut(splitBuf.begin()->first);
    std::vector<size_t> pos(src.size(), 0); size_t left = 0; for (auto& s : src) left += s.size();
    int style = r.below(3), room = 10 * w.cfg.maxClients - 3, n = 0; // the gateway's queue of received packets holds 10 for each of the clients
    while (left) {
        size_t i = r.below((uint32_t)src.size()); if (pos[i] >= src[i].size()) continue;
        int burst = style == 0 ? 1 : style == 1 ? 1 + r.below(4) : 1000;
        while (burst-- && pos[i] < src[i].size()) { w.later.push_back(src[i][pos[i]++]); left--; if (++n % room == 0) w.later.push_back([this] { w.pauseFor(1000); }); }
    }
    src.clear(); srcOf.clear();
}
void Model::flush() {
    merge();
    static const int st[] = {0, 10, 60, 300, 1000};
    w.policy(stepOps ? st[r.below(5)] : 0);
    w.settle();
    w.policy(0);
    for (auto c : cs) {
        if (!c->before.empty()) { w.extra.push_back({c->connTag, "one of two CONNECTs of client " + c->id + " did not reach the broker"}); c->before.clear(); }
        if (c->wantConnect) w.extra.push_back({c->connTag, "no CONNECT for client " + c->id + " reached the broker"});
        if (!c->regMid.empty()) w.extra.push_back({T(*c, "C11") + (c->st == MC::AWAKE ? ",C15" : ""), "REGISTER message " + std::to_string(c->regMid.begin()->first) + " of client " + c->id + " was not answered by REGACK"});
        for (auto& p : c->pend) if (p.maybe) w.extra.push_back({T(*c, "C11,C10"), "SUBSCRIBE message " + std::to_string(p.mid) + " of client " + c->id + " was neither forwarded nor rejected"});
        for (auto& x : c->maybeDown) {
            if (!x.delivered && c->idOf.count(x.d.topic)) w.extra.push_back({T(*c, "C09"), "a message on " + x.d.topic + ", which client " + c->id + " was told about, was not delivered"});
            else if (!x.delivered && !x.acked && x.d.qos) w.extra.push_back({T(*c, "C09"), "a message on " + x.d.topic + " was neither delivered nor acknowledged"});
            else if (x.delivered && x.acked) w.extra.push_back({T(*c, "C09,C10"), "a message on " + x.d.topic + " was delivered and acknowledged by the gateway"});
            if (x.delivered) owe(*c, x.d); else { if (!c->idOf.count(x.d.topic)) c->table.erase(x.d.topic); w.count("discarded_checked"); }
        }
        c->maybeDown.clear(); c->maybeReg.clear();
        if (c->slow && c->awakePing && c->autoPings != 1) w.extra.push_back({T(*c, "C15,C26"), "PINGREQ of client " + c->id + ", which woke up, reached the broker " + std::to_string(c->autoPings) + " times"});
    }
    w.check();
    for (auto c : cs) {
        c->expectReg.clear(); c->rejectReg.clear(); c->recent.clear();
    }
}
// ---------------------------------------------------------------- judged when sent
Str Model::meaning(MC& c, const sn::Pkt& p) {
    if (p.tit == 2) return sn::S(p.name);
    if (p.tit == 1) { auto i = c.predef.find(p.topicId); if (i != c.predef.end()) return i->second; auto j = common.find(p.topicId); return j != common.end() ? j->second : ""; }
    auto i = c.nameOf.find(p.topicId); return i == c.nameOf.end() ? "" : i->second;
}
void Model::told(MC& c, const Str& name, int id, const char* how) {
    if (id <= 0 || id >= 0xFFFF) w.fail(T(c, "C11"), Str(how) + " assigns the reserved topic id " + std::to_string(id) + " to " + name);
    auto i = c.idOf.find(name); if (i != c.idOf.end() && i->second != id) w.fail(T(c, "C11"), Str(how) + " assigns id " + std::to_string(id) + " to " + name + ", which has the id " + std::to_string(i->second));
    auto j = c.nameOf.find(id); if (j != c.nameOf.end() && j->second != name) w.fail(T(c, "C11"), Str(how) + " assigns id " + std::to_string(id) + " to " + name + ", which is the id of " + j->second);
    c.idOf[name] = id; c.nameOf[id] = name; w.count("topic_id_checked");
}
bool Model::snOut(SnOut& o) {
    if (w.ignoreAddr.count(o.to)) return true;
    if (o.to == w.mcast) return o.p.type == sn::ADVERTISE || (o.p.type == sn::GWINFO && sawGwinfo);
    auto it = byAddr.find(o.to); if (it == byAddr.end()) return false;
    MC& c = *it->second;
    switch (o.p.type) {
    case sn::PUBLISH:
        o.meaning = meaning(c, o.p);
        for (auto& x : c.maybeDown) if (!x.delivered && x.d.topic == o.meaning && x.d.data == o.p.data && x.d.qos == o.p.qos && x.d.mid == o.p.msgId && x.d.retain == o.p.retain && x.d.dup == o.p.dup) { x.delivered = true; w.count("table_full_checked"); return true; }
        return false;
    case sn::REGISTER: {
        Str n = sn::S(o.p.name); int id = o.p.topicId, mid = o.p.msgId;
        if (c.st == MC::ASLEEP) w.fail(T(c, "C15"), "REGISTER sent to sleeping client " + c.id);
        if (c.st != MC::ACTIVE && c.st != MC::AWAKE) w.fail(T(c, "C11,C09"), "REGISTER sent to client " + c.id + ", which is not connected");
        if (!c.expectReg.count(n) && !c.rejectReg.count(n) && !c.idOf.count(n)) w.fail(T(c, "C09,C11,C12"), "REGISTER of " + n + " sent to client " + c.id + ", for which no message came");
        if (id <= 0 || id >= 0xFFFF) w.fail(T(c, "C11"), "REGISTER assigns the reserved topic id " + std::to_string(id));
        auto i = c.idOf.find(n); if (i != c.idOf.end() && i->second != id) w.fail(T(c, "C11"), "REGISTER assigns id " + std::to_string(id) + " to " + n + ", which has the id " + std::to_string(i->second));
        auto j = c.nameOf.find(id); if (j != c.nameOf.end() && j->second != n) w.fail(T(c, "C11"), "REGISTER assigns id " + std::to_string(id) + " to " + n + ", which is the id of " + j->second);
        if (!c.gwRegMid.insert(mid).second) w.fail(T(c, "C09"), "REGISTER uses message id " + std::to_string(mid) + ", which an unanswered REGISTER has");
        bool rej = c.rejectReg.count(n); MC* pc = &c; int rc = rej ? 1 + r.below(3) : 0;
        auto f = [this, pc, n, id, mid, rej, rc] {
            pc->gwRegMid.erase(mid); pc->regOut[n]--;
            if (!rej) told(*pc, n, id, "REGISTER"); else { pc->table.erase(n); }
            w.sendSn(pc->a, mk::regack(id, mid, rc));
        };
        if (c.regOut[n]++ == 0 && r.chance(30)) w.later.insert(w.later.begin() + r.below((uint32_t)w.later.size() + 1), f); else w.later.push_back(f);
        w.count("register_checked"); return true; }
    case sn::REGACK: {
        auto i = c.regMid.find(o.p.msgId); if (i == c.regMid.end()) w.fail(T(c, "C11"), "REGACK to " + c.id + " with message id " + std::to_string(o.p.msgId) + ", which answers no REGISTER");
        if (o.p.rc && c.maybeReg.count(o.p.msgId)) { Str n = i->second; c.regMid.erase(i); bool again = c.idOf.count(n) > 0; for (auto& x : c.regMid) again |= x.second == n; if (!again && !c.tainted.count(n)) c.table.erase(n); w.count("table_full_checked"); return true; }
        if (o.p.rc) w.fail(T(c, "C11"), "REGISTER of " + i->second + " rejected with code " + std::to_string(o.p.rc) + " although there is room");
        told(c, i->second, o.p.topicId, "REGACK"); c.regMid.erase(i); return true; }
    case sn::SUBACK:
        for (size_t i = 0; i < c.pend.size(); i++) if (c.pend[i].maybe && c.pend[i].mid == o.p.msgId && o.p.rc) { if (!c.idOf.count(c.pend[i].name)) c.table.erase(c.pend[i].name); c.recent.insert(c.pend[i].mid); c.pend.erase(c.pend.begin() + i); w.count("table_full_checked"); return true; }
        for (auto& p : c.pend) if (p.kind == MC::SUBP && p.mid == o.p.msgId && p.type == 0 && o.p.rc == 0 && p.name.find_first_of("#+") == Str::npos) told(c, p.name, o.p.topicId, "SUBACK");
        return false;
    }
    return false;
}
bool Model::mqOut(MqOut& o) {
    if (o.p.type == mq::CONNECT) {
        Str id = sn::S(o.p.clientId); auto it = byId.find(id);
        if (ignoreId.count(id)) { w.ignoreConn.insert(o.conn); return true; }
        if (it == byId.end() && w.hostile) { w.ignoreConn.insert(o.conn); return true; }
        if (it == byId.end()) w.fail("C12,C13,C16" + (m.claim.empty() ? Str() : "," + m.claim), "MQTT CONNECT with client id " + sn::show(o.p.clientId) + ", which no client uses");
        MC& c = *it->second;
        if (!c.before.empty()) { // the client sent it again at once: this connection is given up
            if (!sameMq(c.before[0], o.p)) { mq::Pkt x = c.before[0]; x.ok = true; w.fail(c.connTag, "expected " + mq::str(x) + " but got " + mq::str(o.p)); }
            c.before.erase(c.before.begin()); w.tag = c.connTag; w.expClose(o.conn); w.count("connect_twice_checked"); return true;
        }
        if (!c.wantConnect) w.fail(T(c, c.connect.will || m.willStray ? "C12,C13,C14" : "C12,C13"), "MQTT CONNECT for client " + id + ", which sent no CONNECT (or got one already)");
        if (!sameMq(c.connect, o.p)) { mq::Pkt x = c.connect; x.ok = true; w.fail(c.connTag, "expected " + mq::str(x) + " but got " + mq::str(o.p)); }
        if (w.cfg.tls) {
            tls::Peer* p = sim::getTls(o.conn);
            if (c.secure != (p != nullptr)) w.fail(T(c, "C31,C13"), "client " + id + ", which is " + (c.secure ? "" : "not ") + "to use a secure connection, was connected " + (p ? "over TLS" : "in the clear"));
            if (p) { w.count("tls_connections_checked"); if (p->resumed) w.count("tls_resumed"); if (p->hadCert) w.count("tls_client_certificates");
                if (p->asked && !p->resumed) { w.count("tls_client_certificate_checked"); if (p->itsCert != w.cfg.clientCert) w.fail(T(c, "C31,C13"), Str("the broker asked for a certificate, and the gateway, which has ") + (w.cfg.clientCert ? "one" : "none") + ", sent " + (p->hadCert ? "another" : "none")); } }
        }
        c.wantConnect = false; c.conn = o.conn; byConn[o.conn] = &c; c.conns++;
        w.count("connect_checked"); return true;
    }
    auto it = byConn.find(o.conn);
    if (it != byConn.end() && o.p.type == mq::SUBSCRIBE) for (auto& p : it->second->pend) if (p.maybe && p.mid == o.p.msgId && p.name == sn::S(o.p.topic)) { p.maybe = false; break; }
    if (it != byConn.end() && (o.p.type == mq::PUBACK || o.p.type == mq::PUBREC)) for (auto& x : it->second->maybeDown) if (!x.acked && !x.delivered && x.d.qos == (o.p.type == mq::PUBACK ? 1 : 2) && x.d.mid == o.p.msgId) { x.acked = true; return true; }
    if (it != byConn.end() && o.p.type == mq::PINGREQ && it->second->awakePing && it->second->conn == o.conn) {
        MC* c = it->second; c->autoPings++; // a wake-up: the broker answers at once
        if (c->autoPings > 8) w.fail("C15", "the gateway keeps sending PINGREQ for " + c->id);
        if (c->slow) return true;
        int cn = o.conn; w.later.push_back([this, cn] { w.sendMq(cn, mk::mack(mq::PINGRESP, 0)); });
        return true;
    }
    return false;
}
// ---------------------------------------------------------------- helpers
int Model::freeMid(MC& c) { while (true) { int x = msgId(); bool u = c.regMid.count(x) || c.recent.count(x); for (auto& p : c.pend) if ((p.kind <= MC::U2C || p.kind == 99 || p.kind == MC::SUBP || p.kind == MC::UNSUBP) && p.mid == x) u = true; if (!u) return x; } }
int Model::freeBrokerMid(MC& c) { while (true) { int x = r.chance(60) ? c.nextBrokerMid++ : msgId(); if (c.nextBrokerMid > 0xFFFF) c.nextBrokerMid = 1; bool u = c.recent.count(x) > 0; for (auto& p : c.pend) if (p.kind >= MC::D1 && p.kind <= MC::D2C && p.mid == x) u = true; for (auto& d : c.stored) if (d.qos && d.mid == x) u = true; if (!u) return x; } }
void Model::newSession(MC& c, bool clean) {
    c.pend.clear(); c.stored.clear(); c.regMid.clear(); c.gwRegMid.clear(); c.regOut.clear(); c.clean = clean; c.awakePing = c.slow = false; c.forgotten = 0;
    if (clean) { for (auto& x : c.nameOf) c.oldIds.insert(x.first); c.idOf.clear(); c.nameOf.clear(); c.table.clear(); c.filters.clear(); c.tainted.clear(); } // predefined ids stay in the gateway's table
}
void Model::lost(MC& c) { c.pend.clear(); c.regMid.clear(); c.gwRegMid.clear(); c.regOut.clear(); c.stored.clear(); c.awakePing = c.slow = false; c.forgotten = 0; }
Str Model::pickTopic(MC& c, int& tit, int& tid, bool uplink) {
    for (int tries = 0; tries < 8; tries++) {
        switch (r.below(4)) {
        case 0: if (m.shortTopics) { tit = 2; tid = 0; return shortName(); } break;
        case 1: if (m.predef && w.cfg.predef) {
            std::vector<std::pair<int, Str>> v(c.predef.begin(), c.predef.end());
            for (auto& k : common) if (!c.predef.count(k.first) && (uplink ? tableUse(c) < m.maxTopics : c.predefUsed.count(k.first) && !c.predefNew.count(k.first))) v.push_back(k);
            if (v.empty()) break;
            auto& x = v[r.below((uint32_t)v.size())]; tit = 1; tid = x.first; if (!c.predef.count(tid) && c.predefUsed.insert(tid).second) c.predefNew.insert(tid); return x.second; } break;
        default: if (!c.idOf.empty()) { auto it = c.idOf.begin(); std::advance(it, r.below((uint32_t)c.idOf.size())); if (it->first.find_first_of("#+") != Str::npos) break; tit = 0; tid = it->second; return it->first; }
        }
    }
    return "";
}
Down Model::mkDown(MC& c, const Str& topic, int qos) { Down d; d.topic = topic; d.qos = qos >= 0 ? qos : r.below(3); d.mid = d.qos ? freeBrokerMid(c) : 0; d.data = payload(); d.retain = r.chance(25); d.dup = d.qos && r.chance(15); return d; }
void Model::expDown(MC& c, const Down& d, int stream) { int s = w.stream; w.stream = stream; w.expPub(c.a, d.topic, d.mid, d.qos, d.data, d.retain, d.dup); w.stream = s; }
void Model::owe(MC& c, const Down& d) { if (!d.qos) return; MC::Pend p; p.kind = d.qos == 1 ? MC::D1 : MC::D2A; p.mid = d.mid; p.qos = d.qos; p.d = d; p.name = d.topic; p.tid = 0; p.type = 0; p.rnd = rounds; c.pend.push_back(p); }
static mq::Pkt toMq(const Down& d) { return mk::mpub(d.topic, d.qos, d.mid, d.data, d.retain, d.dup); }
// ---------------------------------------------------------------- operations of a connected client
bool Model::opPub(MC& c) {
    if (c.st != MC::ACTIVE || c.pend.size() > 16) return false;
    int tit, tid; Str t = pickTopic(c, tit, tid, true); if (t.empty()) return false;
    int qos = r.below(3), mid = qos ? freeMid(c) : 0; bool retain = r.chance(30), dup = qos && r.chance(20); Bytes d = payload();
    w.tag = T(c, tit == 1 ? "C08,C21" : "C08"); w.stream = 0;
    viaSn(c, mk::publish(tit, tid, t, mid, qos, d, retain, dup));
    w.expMq(c.conn, mk::mpub(t, qos, mid, d, retain, dup));
    if (qos) { MC::Pend p; p.kind = qos == 1 ? MC::U1 : MC::U2A; p.mid = mid; p.tid = tit == 2 ? ((uint8_t)t[0] << 8 | (uint8_t)t[1]) : tid; p.qos = qos; p.name = t; p.type = tit; p.rnd = rounds; p.d.topic = t; p.d.data = d; p.d.retain = retain; c.pend.push_back(p); busy[&c] |= 4; }
    w.count("uplink"); w.state(fnv("pub", 3, tit * 3 + qos + 9 * (d.size() > 248)));
    return true;
}
bool Model::opPubUnknown(MC& c) {
    if (c.st != MC::ACTIVE) return false;
    int tit = r.below(2), tid; bool bad;
    int n = 0; do { tid = r.chance(20) && !c.oldIds.empty() ? *std::next(c.oldIds.begin(), r.below((uint32_t)c.oldIds.size())) : r.chance(30) && !tit && (c.predef.size() + common.size()) ? [&] { std::vector<int> v; for (auto& x : c.predef) v.push_back(x.first); for (auto& x : common) v.push_back(x.first); return r.pick(v); }() // ids of the other type and of an earlier session
            : r.chance(30) && tit && c.nameOf.size() ? std::next(c.nameOf.begin(), r.below((uint32_t)c.nameOf.size()))->first : r.chance(50) ? r.range(1, 60) : r.chance(20) ? (r.chance(50) ? 0 : 0xFFFF) : r.range(1, 0xFFFE); bad = tit ? c.predef.count(tid) || common.count(tid) : c.nameOf.count(tid) > 0; } while (bad && n++ < 50);
    if (bad) return false;
    if (!tit && (c.table.size() > c.idOf.size() || tid <= 64) && (busy[&c] & 8 || !c.pend.empty() || c.table.size() != c.idOf.size())) return false; // ids being assigned in this round
    if (!tit) busy[&c] |= 16;
    int qos = r.below(3), mid = qos ? freeMid(c) : 0; 
    w.tag = T(c, tit == 1 ? "C08,C21" : "C08,C11"); w.stream = 0;
    Bytes d = payload(200); if (d.size() > 3) unknownSent[d] = tit ? ",C21" : ",C11";
    viaSn(c, mk::publish(tit, tid, "", mid, qos, d, r.chance(20), false));
    if (qos) w.expSn(c.a, mk::ack(sn::PUBACK, mid, tid, 2));
    w.count("uplink_unknown"); return true;
}
bool Model::opReg(MC& c) {
    if (!c.up() || (busy[&c] & 16)) return false;
    Str n; bool known = !c.idOf.empty() && r.chance(25);
    if (known) { auto it = c.idOf.begin(); std::advance(it, r.below((uint32_t)c.idOf.size())); n = it->first; if (n.find_first_of("#+") != Str::npos) return false; }
    else { if (!room(c) && !m.full) return false; n = r.chance(8) ? shortName() : r.chance(4) ? word(1) : name(); if (r.chance(40) && !c.idOf.empty()) { n = c.idOf.begin()->first; if (r.chance(50)) n += word(1); else n[n.size() - 1] = 'k'; if (n.find_first_of("#+") != Str::npos) return false; } }
    if (c.table.count(n) && !c.idOf.count(n) && !c.tainted.count(n)) return false;
    int mid = freeMid(c); c.regMid[mid] = n; if (m.full && !room(c)) c.maybeReg.insert(mid); c.table.insert(n); busy[&c] |= 8;
    viaSn(c, mk::reg(r.chance(70) ? 0 : r.range(0, 0xFFFF), mid, n));
    w.count("register"); return true;
}
bool Model::opSub(MC& c) {
    if (c.st != MC::ACTIVE || c.pend.size() > 16 || (busy[&c] & 16)) return false;
    int tit = 0, tid = 0; Str n; int k = r.below(10); bool maybe = false;
    if (k < 3) { int t2; n = pickTopic(c, tit, t2, true); if (n.empty()) return false; tid = t2; }
    else {
        if (!room(c) && !m.full) return false;
        if (k < 6) { n = name(); if (r.chance(10)) n = shortName(); }
        else { // wildcard filter
            n = name(20); size_t e = n.find('/'); switch (r.below(5)) { case 0: n = (e == Str::npos ? n : n.substr(0, e)) + "/#"; break; case 1: n = "+/" + n; break; case 2: n = n + "/+"; break; case 3: n = (e == Str::npos ? n + "/+/" : n.substr(0, e) + "/+/") + word(2); break; default: n = word(3) + "/+/#"; }
        }
        if (c.table.count(n) && !c.idOf.count(n)) { bool f = false; for (auto& x : c.filters) if (x == n) f = true; if (!f) return false; }
        maybe = m.full && !room(c) && !c.idOf.count(n); c.table.insert(n); busy[&c] |= 8;
    }
    int qos = r.below(3), mid = freeMid(c);
    w.tag = T(c, tit == 1 ? "C11,C21" : "C11"); w.stream = 0;
    sn::Pkt p = mk::sub(mid, qos, tit, tid, n); p.dup = r.chance(10); if (tit == 1) p.name.clear();
    viaSn(c, p); w.expMq(c.conn, mk::msub(n, qos, mid)).optional = maybe;
    MC::Pend q; q.maybe = maybe; q.kind = MC::SUBP; q.mid = mid; q.tid = tit == 2 ? ((uint8_t)n[0] << 8 | (uint8_t)n[1]) : tid; q.name = n; q.qos = qos; q.type = tit; q.rnd = rounds; c.pend.push_back(q); busy[&c] |= 4;
    w.count("subscribe"); return true;
}
bool Model::opSubBad(MC& c) {
    if (c.st != MC::ACTIVE) return false;
    if (r.chance(35)) { // QoS -1, which MQTT does not have; the filter has to be one nobody asks for again
        int mid = freeMid(c), tit = r.chance(50) ? 2 : 0; w.tag = T(c, "C10"); w.stream = 0; viaSn(c, mk::sub(mid, 3, tit, 0, tit ? shortName() : "qos-1/" + word(6)));
        sn::Pkt e = mk::simple(sn::SUBACK); e.msgId = mid; e.rc = -1; e.topicId = -1; e.qos = -1; w.expSn(c.a, e, nullptr, [](const sn::Pkt& g) { return g.rc == 0 ? Str("SUBSCRIBE with QoS -1 was accepted") : Str(); }); w.count("subscribe_qos_m1_checked"); return true; }
    if (r.chance(15)) { w.tag = T(c, "C08,C10"); w.stream = 0; viaSn(c, mk::publish(2, 0, shortName(), 0, 1 + r.below(2), payload(20))); w.count("message_id_0_checked"); return true; } // there is no message id 0
    int tid, n = 0; do tid = r.range(1, 0xFFFE); while ((c.predef.count(tid) || common.count(tid)) && n++ < 50);
    if (c.predef.count(tid) || common.count(tid)) return false;
    int mid = freeMid(c); w.tag = T(c, "C21,C10"); w.stream = 0;
    viaSn(c, mk::sub(mid, r.below(3), 1, tid, ""));
    sn::Pkt e = mk::simple(sn::SUBACK); e.msgId = mid; e.rc = -1; e.topicId = -1; e.qos = -1;
    w.expSn(c.a, e, nullptr, [](const sn::Pkt& g) { return g.rc == 0 ? Str("SUBSCRIBE to a predefined id that is not listed was accepted") : Str(); });
    return true;
}
bool Model::opUnsub(MC& c) {
    if (c.st != MC::ACTIVE || c.pend.size() > 16) return false;
    int tit = 0, tid = 0; Str n;
    if (!c.filters.empty() && r.chance(20)) { size_t i = r.below((uint32_t)c.filters.size()); n = c.filters[i]; c.filters.erase(c.filters.begin() + i); }
    else { n = pickTopic(c, tit, tid, false); if (n.empty()) return false; }
    for (auto& p : c.pend) if (p.kind == MC::SUBP && p.name == n) return false;
    int mid = freeMid(c); w.tag = T(c, tit == 1 ? "C11,C21" : "C11"); w.stream = 0;
    sn::Pkt p = mk::unsub(mid, tit, tid, n); if (tit == 1) p.name.clear();
    viaSn(c, p); w.expMq(c.conn, mk::munsub(n, mid));
    MC::Pend q; q.kind = MC::UNSUBP; q.mid = mid; q.name = n; q.tid = tid; q.qos = 0; q.type = tit; q.rnd = rounds; c.pend.push_back(q); busy[&c] |= 4;
    return true;
}
bool Model::opPing(MC& c) {
    if (c.st != MC::ACTIVE) return false;
    for (auto& p : c.pend) if (p.kind == MC::PING) return false;
    w.tag = T(c, "C26"); w.stream = 0; viaSn(c, mk::pingreq(r.chance(30) ? c.id : "")); mq::Pkt q; q.type = mq::PINGREQ; w.expMq(c.conn, q);
    MC::Pend p; p.kind = MC::PING; p.mid = 0; p.tid = 0; p.qos = 0; p.type = 0; p.rnd = rounds; c.pend.push_back(p); busy[&c] |= 4; return true;
}
bool Model::opDown(MC& c) {
    if (!c.up() || c.pend.size() > 16) return false;
    int tit, tid; Str t = pickTopic(c, tit, tid, false); if (t.empty()) return false;
    if (c.expectReg.count(t) || c.rejectReg.count(t)) return false;
    Down d = mkDown(c, t); w.tag = T(c, tit == 1 ? "C09,C21" : "C09") + (c.slow ? ",C15" : ""); viaMq(c.conn, toMq(d)); expDown(c, d, 2); owe(c, d); busy[&c] |= 4;
    w.count("downlink"); w.state(fnv("down", 4, tit * 3 + d.qos + 9 * (d.data.size() > 248))); return true;
}
bool Model::opDownNew(MC& c, bool reject) {
    if (!c.up() || c.pend.size() > 12 + (size_t)regBurst || (busy[&c] & (8 | 16))) return false;
    Str t; int n = 0;
    do {
        if (!c.filters.empty() && (c.clean || r.chance(50))) {
            t = ""; for (char ch : r.pick(c.filters)) { if (ch == '+') t += r.chance(15) ? Str() : word(1 + r.below(4)); else if (ch == '#') t += word(1 + r.below(4)) + (r.chance(30) ? "/" + word(2) : ""); else t += ch; }
        } else if (!c.clean) t = name(m.maxPayload < 500 ? 100 : 200); else return false;
    } while ((t.size() == 2 || t.empty() || c.table.count(t)) && n++ < 10);
    if (t.size() == 2 || t.empty() || c.table.count(t) || (!room(c) && !m.full)) return false;
    for (auto& k : c.predef) if (k.second == t) return false;
    for (auto& k : common) if (k.second == t) return false;
    if ((int)(c.expectReg.size() + c.rejectReg.size()) > 4 + regBurst) return false;
    busy[&c] |= 4 | 32; c.table.insert(t); w.tag = T(c, "C09") + (c.slow ? ",C15" : "");
    if (m.full && tableUse(c) > m.maxTopics) { c.expectReg.insert(t); Down d = mkDown(c, t); c.maybeDown.push_back({d, false, false}); if (d.qos) c.recent.insert(d.mid); viaMq(c.conn, toMq(d)); return true; }
    if (reject) { c.rejectReg.insert(t); Down d = mkDown(c, t); viaMq(c.conn, toMq(d)); w.count("downlink_rejected"); return true; }
    c.expectReg.insert(t); int k = 1 + r.below(3); int stream = 100 + (int)c.expectReg.size();
    for (int i = 0; i < k; i++) { Down d = mkDown(c, t); viaMq(c.conn, toMq(d)); expDown(c, d, stream); owe(c, d); w.count("downlink_register"); }
    return true;
}
bool Model::opDownBig(MC& c) {
    if (!c.up()) return false;
    int tit, tid; Str t = pickTopic(c, tit, tid, false); if (t.empty()) return false;
    Down d = mkDown(c, t); d.data = bytes(r.chance(50) ? 1016 + r.below(20) : r.range(1016, 70000)); w.tag = T(c, "C09"); viaMq(c.conn, toMq(d));
    if (d.qos) { w.stream = 1; w.expMq(c.conn, mk::mack(d.qos == 1 ? mq::PUBACK : mq::PUBREC, d.mid)).optional = true; w.stream = 0; }
    return true;
}
bool Model::opProgress(MC& c, int which) {
    if ((!c.up() && c.st != MC::ASLEEP) || c.pend.empty()) return false;
    std::vector<int> v; for (size_t i = 0; i < c.pend.size(); i++) { auto& p = c.pend[i]; if (p.kind != 99 && p.rnd != rounds && (c.st == MC::ACTIVE || (p.kind >= MC::D1 && p.kind <= MC::D2C))) v.push_back((int)i); }
    if (v.empty()) return false;
    if (which < 0) which = r.pick(v);
    MC::Pend& p = c.pend[which]; w.stream = 1; bool done = false; p.rnd = rounds; const char* also = c.st == MC::ACTIVE ? "" : ",C15";
    auto fromBroker = [&](int mqt, int snt) { w.tag = T(c, p.type == 1 && p.kind == MC::U1 ? "C10,C21" : "C10") + also; viaMq(c.conn, mk::mack(mqt, p.mid)); w.expSn(c.a, mk::ack(snt, p.mid, snt == sn::PUBACK ? p.tid : 0, 0)); };
    auto fromClient = [&](int snt, int mqt) { w.stream = 0; w.tag = T(c, "C10") + also; viaSn(c, mk::ack(snt, p.mid, snt == sn::PUBACK ? (c.idOf.count(p.name) ? c.idOf[p.name] : 1) : 0, 0)); w.expMq(c.conn, mk::mack(mqt, p.mid)); };
    switch (p.kind) {
    case MC::U1: fromBroker(mq::PUBACK, sn::PUBACK); done = true; break;
    case MC::U2A: fromBroker(mq::PUBREC, sn::PUBREC); p.kind = MC::U2B; break;
    case MC::U2B: fromClient(sn::PUBREL, mq::PUBREL); p.kind = MC::U2C; break;
    case MC::U2C: fromBroker(mq::PUBCOMP, sn::PUBCOMP); done = true; break;
    case MC::D1: fromClient(sn::PUBACK, mq::PUBACK); done = true; break;
    case MC::D2A: fromClient(sn::PUBREC, mq::PUBREC); p.kind = MC::D2B; break;
    case MC::D2B:
        if (c.st == MC::ASLEEP) { w.stream = 7; w.tag = T(c, "C10,C15"); viaMq(c.conn, mk::mack(mq::PUBREL, p.mid)); w.expMq(c.conn, mk::mack(mq::PUBCOMP, p.mid)); done = true; w.count("pubrel_asleep_checked"); break; } // the gateway answers for the sleeping client
        fromBroker(mq::PUBREL, sn::PUBREL); p.kind = MC::D2C; break;
    case MC::D2C: fromClient(sn::PUBCOMP, mq::PUBCOMP); done = true; break;
    case MC::PING: w.tag = T(c, "C26"); viaMq(c.conn, mk::mack(mq::PINGRESP, 0)); w.expSn(c.a, mk::simple(sn::PINGRESP)); done = true; break;
    case MC::UNSUBP: fromBroker(mq::UNSUBACK, sn::UNSUBACK); done = true; break;
    case MC::SUBP: {
        bool rej = r.chance(12), wild = p.name.find_first_of("#+") != Str::npos; int granted = rej ? 0 : r.below((uint32_t)p.qos + 1);
        w.tag = T(c, p.type == 1 ? "C10,C21" : "C10"); viaMq(c.conn, mk::mack(mq::SUBACK, p.mid, rej ? 0x80 : granted));
        sn::Pkt e = mk::simple(sn::SUBACK); e.msgId = p.mid; e.qos = granted; e.rc = rej ? -1 : 0; e.topicId = p.type == 0 ? (c.idOf.count(p.name) ? c.idOf[p.name] : -1) : p.tid; if (wild) e.topicId = -1; if (rej) e.topicId = -1;
        w.expSn(c.a, e, nullptr, [rej](const sn::Pkt& g) { return rej && g.rc == 0 ? Str("the broker's rejection was turned into an acceptance") : Str(); });
        if (rej) { if (p.type == 0 && !c.idOf.count(p.name)) c.tainted.insert(p.name); p.type = 3; } else { if (wild && std::find(c.filters.begin(), c.filters.end(), p.name) == c.filters.end()) c.filters.push_back(p.name); }
        p.kind = 99; // removed at the end of the round: the topic id is judged when SUBACK is sent
        w.count("suback"); break; }
    }
    w.stream = 0;
    if (done) { c.recent.insert(p.mid); c.pend.erase(c.pend.begin() + which); }
    busy[&c] |= 4; w.count(c.st == MC::ACTIVE ? "ack_step" : c.st == MC::AWAKE ? "ack_step_awake" : "ack_step_asleep"); return true;
}
bool Model::opResend(MC& c) { // an answer that is late: the request comes again
    if (c.st != MC::ACTIVE) return false;
    std::vector<int> v; for (size_t i = 0; i < c.pend.size(); i++) { auto& p = c.pend[i]; if (p.kind != 99 && p.kind != MC::PING && p.rnd != rounds) v.push_back((int)i); }
    if (v.empty()) return false;
    auto& p = c.pend[r.pick(v)]; p.rnd = rounds; busy[&c] |= 4; w.tag = T(c, "C10"); w.stream = 0; w.count("resend_checked");
    auto up = [&](int snt, int mqt) { viaSn(c, mk::ack(snt, p.mid)); w.expMq(c.conn, mk::mack(mqt, p.mid)); };
    switch (p.kind) {
    case MC::U1: case MC::U2A: w.tag = T(c, "C10,C08"); viaSn(c, mk::publish(p.type, p.tid, p.name, p.mid, p.qos, p.d.data, p.d.retain, true)); w.expMq(c.conn, mk::mpub(p.name, p.qos, p.mid, p.d.data, p.d.retain, true)); break;
    case MC::U2B: return false;                        // PUBREC has arrived
    case MC::U2C: up(sn::PUBREL, mq::PUBREL); break;
    case MC::D1: case MC::D2A: { bool known = p.name.size() == 2 || c.idOf.count(p.name); if (!known) return false; w.tag = T(c, "C10,C09"); Down d = p.d; d.dup = true; viaMq(c.conn, toMq(d)); expDown(c, d, 2); break; }
    case MC::D2B: up(sn::PUBREC, mq::PUBREC); break;
    case MC::D2C: w.stream = 1; viaMq(c.conn, mk::mack(mq::PUBREL, p.mid)); w.expSn(c.a, mk::ack(sn::PUBREL, p.mid)); w.stream = 0; break;
    case MC::SUBP: { sn::Pkt q = mk::sub(p.mid, p.qos, p.type, p.tid, p.name); q.dup = true; if (p.type == 1) q.name.clear(); viaSn(c, q); w.expMq(c.conn, mk::msub(p.name, p.qos, p.mid)); break; }
    case MC::UNSUBP: { sn::Pkt q = mk::unsub(p.mid, p.type, p.tid, p.name); if (p.type == 1) q.name.clear(); viaSn(c, q); w.expMq(c.conn, mk::munsub(p.name, p.mid)); break; }
    }
    return true;
}
bool Model::opForget(MC& c) { // the answer never comes: the client gives up and may use the message id again
    if (c.st != MC::ACTIVE || c.forgotten >= 4) return false;
    std::vector<int> v; for (size_t i = 0; i < c.pend.size(); i++) { auto& p = c.pend[i]; if ((p.kind <= MC::U2C || (p.kind == MC::SUBP && p.type)) && p.rnd != rounds) v.push_back((int)i); }
    if (v.empty()) return false;
    c.pend.erase(c.pend.begin() + r.pick(v)); c.forgotten++; w.count("forgotten"); return true;
}
// ---------------------------------------------------------------- connections
void Model::brokerDrops(int cn, bool reset) { NetAddr k; k.ip = (uint32_t)cn; via(1, k, [this, cn, reset] { if (!sim::connOpen(cn)) return; w.note("BR c%d closed by the broker%s", cn, reset ? " (reset)" : ""); sim::brokerClose(cn, reset); }); }
void Model::closeOld(MC& c, const char* tag) {
    if (c.conn < 0 || !sim::connOpen(c.conn)) return;
    w.tag = T(c, tag); w.expClose(c.conn);
    if (m.brokerClose && r.chance(25)) { brokerDrops(c.conn, r.chance(30)); w.count("dropped_while_reconnecting_checked"); } // the broker gives the old connection up just now
}
void Model::startConnect(MC& c, bool clean, bool will) {
    c.ka = r.chance(20) ? r.range(0, 0xFFFF) : r.range(10, 300);
    mq::Pkt q = mk::mconnect(c.id, c.ka, clean);
    if (!w.cfg.login.empty()) { q.hasUser = true; q.user = sn::B(w.cfg.login); }
    if (!w.cfg.password.empty()) { q.hasPass = true; q.pass = sn::B(w.cfg.password); }
    if (w.cfg.mqttVersion) q.level = w.cfg.mqttVersion;
    if (will) {
        q.will = true; q.willTopic = sn::B(r.chance(15) ? Str("w") + word(1) : r.chance(10) ? name(900) : name()); q.willMsg = payload(900); q.willQos = r.below(3); q.willRetain = r.below(2);
    }
    closeOld(c, "C13");
    c.connTag = T(c, will || c.conns ? "C13,C14" : "C13"); c.before.clear(); c.connect = q; newSession(c, clean); c.st = MC::CONNECTING;
    if (!will) { c.wantConnect = true; viaSn(c, mk::connect(c.id, c.ka, clean, false)); return; }
}
void Model::twice(MC& c) { // the client is impatient or starts anew: a second CONNECT follows at once
    if (!r.chance(10) || !c.wantConnect) return;
    c.before.push_back(c.connect); bool clean = r.chance(50); if (r.chance(60)) c.ka = r.range(10, 300);
    c.connect.keepAlive = c.ka; c.connect.clean = clean; newSession(c, clean); viaSn(c, mk::connect(c.id, c.ka, clean, false));
}
void Model::finishConnect(MC& c, int rc) {
    w.tag = T(c, "C13"); w.stream = 1; viaMq(c.conn, mk::mack(mq::CONNACK, 0, rc));
    sn::Pkt e = mk::rcp(sn::CONNACK, rc ? -1 : 0);
    w.expSn(c.a, e, nullptr, [rc](const sn::Pkt& g) { return rc && g.rc == 0 ? Str("the broker refused the connection but the client was accepted") : Str(); });
    w.stream = 0; c.st = rc ? MC::DISC : MC::ACTIVE;
}
bool Model::opConnack(MC& c, int rc) {
    if (c.st != MC::CONNECTING || c.conn < 0) return false;
    finishConnect(c, rc); busy[&c] |= 1;
    if (m.brokerClose && r.chance(rc ? 40 : 4)) { w.tag = T(c, "C13"); brokerDrops(c.conn, false); w.expClose(c.conn); lost(c); c.st = MC::DISC; w.count("closed_after_connack_checked"); } // brokers close a connection they refused at once
    return true;
}
void Model::connect(MC& c, bool clean) { startConnect(c, clean, false); flush(); finishConnect(c, 0); flush(); }
void Model::connectAll() {
    w.run();
    for (auto c : cs) {
        connect(*c, r.chance(70));
        for (int i = 0; i < m.prefill; i++) { busy.clear(); opReg(*c); }
        flush();
    }
}
bool Model::opReconnect(MC& c) { // clients that are connected, disconnected or new
    if (c.noTrust) return opRefuse(c);
    if (c.st == MC::ASLEEP || c.st == MC::AWAKE) return false;
    if (c.st == MC::CONNECTING) { if (c.conn < 0 || !sim::connOpen(c.conn) || r.chance(50)) return false; w.count("connect_again_before_connack_checked"); } // the broker is slow, the client sends another CONNECT
    if (c.st == MC::ORPHAN) { c.a = addr(); if (c.fwd) return false; byAddr[c.a] = &c; }
    busy[&c] |= 1; startConnect(c, r.chance(60), false); twice(c); return true;
}
bool Model::opWill(MC& c) { // the whole handshake; the round belongs to it
    if ((c.st != MC::ACTIVE && c.st != MC::DISC && c.st != MC::NEW) || busy.size() || c.noTrust) return false;
    busy[&c] |= 1;
    bool clean = r.chance(60); startConnect(c, clean, true);
    Str tg = T(c, "C13,C14"); w.tag = tg; w.stream = 1;
    viaSn(c, mk::connect(c.id, c.ka, clean, true)); w.expSn(c.a, mk::simple(sn::WILLTOPICREQ)); Str ct = w.wantCloseTag; std::set<int> cl = w.wantClose; 
    // the old connection may be closed at once or only when the new one is opened
    w.wantClose.clear(); for (int x : cl) w.mayClose.insert(x);
    flush();
    auto drop = [&] { if (m.brokerClose) for (int x : cl) if (sim::connOpen(x) && r.chance(30)) { brokerDrops(x, r.chance(30)); w.count("dropped_in_will_exchange_checked"); } }; // the broker gives the old connection up
    drop();
    if (r.chance(10)) { // start again without a will
        startConnect(c, clean, false); w.stream = 0; return true; }
    if (r.chance(15)) { w.tag = tg; Str t2 = name(); viaSn(c, mk::connect(c.id, c.ka, clean, true)); w.stream = 1; w.expSn(c.a, mk::simple(sn::WILLTOPICREQ)); flush(); }
    w.tag = tg; w.stream = 1;
    for (int n = r.chance(15) ? 2 : 1; n > 0; n--) { viaSn(c, mk::willtopic(sn::S(c.connect.willTopic), c.connect.willQos, c.connect.willRetain)); w.expSn(c.a, mk::simple(sn::WILLMSGREQ)); } // perhaps sent again
    flush();
    drop();
    if (r.chance(10)) { // start again without a will: nothing of the will may be left
        startConnect(c, clean, false); w.stream = 0; return true; }
    w.tag = tg; c.wantConnect = true; c.connTag = tg; viaSn(c, mk::willmsg(c.connect.willMsg));
    if (r.chance(25)) { viaSn(c, mk::willmsg(c.connect.willMsg)); w.stream = 2; w.expSn(c.a, mk::disc(-1)).optional = true; w.count("willmsg_again_checked"); } // it was sent again: there is still one CONNECT
    w.stream = 0; for (int x : cl) if (sim::connOpen(x)) w.wantClose.insert(x); w.wantCloseTag = ct;
    w.count("will_checked"); return true;
}
bool Model::opWillStray(MC& c) { // nobody asked for it: it is of no effect
    if (c.st != MC::ACTIVE && !(c.st == MC::CONNECTING && c.conn >= 0 && sim::connOpen(c.conn))) return false;
    w.tag = T(c, "C14"); viaSn(c, r.chance(50) ? mk::willtopic(name(), r.below(3), r.below(2)) : mk::willmsg(payload(100))); w.count("stray_will_checked"); return true;
}
bool Model::opDisc(MC& c) {
    bool early = c.st == MC::CONNECTING && c.conn >= 0 && sim::connOpen(c.conn) && r.chance(40); // it gives up waiting for CONNACK
    if (!c.up() && c.st != MC::ASLEEP && !early) return false;
    if (early) w.count("disconnect_before_connack_checked");
    busy[&c] |= 1; w.tag = T(c, early || c.st == MC::ACTIVE ? "C13" : "C13,C15"); w.stream = 0; viaSn(c, mk::disc(r.chance(20) ? 0 : -1));
    mq::Pkt q; q.type = mq::DISCONNECT; w.expMq(c.conn, q); w.expClose(c.conn); sn::Pkt e = mk::disc(-1); w.stream = 1; w.expSn(c.a, e); w.stream = 0;
    lost(c); c.st = MC::DISC; return true;
}
bool Model::opTakeover(MC& c) { // same client id from another address
    if (c.st == MC::AWAKE || c.st == MC::NEW || c.st == MC::ASLEEP || w.cfg.auth) return false;
    if (c.st == MC::CONNECTING) { if (c.conn < 0 || !sim::connOpen(c.conn) || r.chance(50)) return false; w.count("takeover_before_connack_checked"); }
    if (c.st == MC::ORPHAN && c.fwd) return false;
    busy[&c] |= 1; if (!fwds.empty() && r.chance(50)) place(c); else { if (c.a.port) byAddr.erase(c.a); c.a = addr(); byAddr[c.a] = &c; c.fwd = false; }
    startConnect(c, r.chance(60), false); twice(c); w.count("takeover"); return true;
}
bool Model::opSteal(MC& c) { // another client appears at the address of c
    if (c.fwd || w.cfg.auth || (c.st != MC::ACTIVE && c.st != MC::DISC)) return false;
    MC* d = nullptr; for (auto x : cs) if (x != &c && !x->fwd && (x->st == MC::DISC || x->st == MC::NEW || x->st == MC::ORPHAN) && !busy.count(x)) d = x;
    if (!d) { if ((int)cs.size() >= w.cfg.maxClients || cs.size() > 12) return false; d = add(clientId(), addr()); }
    busy[&c] |= 1; busy[d] |= 1; byAddr.erase(d->a); d->a = c.a; byAddr[c.a] = d; c.a = NetAddr(); lost(c);
    c.st = MC::ORPHAN; startConnect(*d, r.chance(60), false); w.count("address_reused"); return true;
}
bool Model::opRefuse(MC& c) { // the broker cannot be reached
    if ((c.st != MC::DISC && c.st != MC::NEW && c.st != MC::ACTIVE) || busy.size()) return false;
    busy[&c] |= 1; startConnect(c, r.chance(60), false); c.wantConnect = false; refuseNext = 1; resetNext = r.chance(30); badTls = c.noTrust ? 1000 + r.below(tls::NCERT) : c.secure && r.chance(80) ? r.chance(15) ? 2000 : 1000 + r.range(tls::valid(tls::WILDCARD) ? 2 : 1, tls::NCERT - 1) : 0; if (badTls == 1000 + tls::OTHER_CA && w.cfg.noCa == 2) badTls--; w.tag = T(c, c.secure ? "C13,C31" : "C13");
    if (badTls) w.count("bad_broker_checked");
    w.expSn(c.a, mk::rcp(sn::CONNACK, -1), nullptr, [](const sn::Pkt& g) { return g.rc == 0 ? Str("the broker is not reachable but the client was accepted") : Str(); });
    flush(); refuseNext = 0; resetNext = false; badTls = 0; c.st = MC::DISC; c.conn = -1; return true;
}
bool Model::opBrokerClose(MC& c) {
    if ((!c.up() && c.st != MC::ASLEEP && c.st != MC::DISC) || c.conn < 0 || !sim::connOpen(c.conn)) return false;
    busy[&c] |= 1; w.tag = T(c, "C13"); int cn = c.conn; bool reset = r.chance(40); NetAddr k; k.ip = (uint32_t)cn; via(1, k, [this, cn, reset] { w.note("BR c%d closed by the broker%s", cn, reset ? " (reset)" : ""); sim::brokerClose(cn, reset); });
    w.expClose(cn); lost(c); c.st = MC::DISC; return true;
}
bool Model::opProbe(MC& c) { // packets of a client that is not connected
    if (c.st != MC::DISC) return false;
    busy[&c] |= 1; w.tag = T(c, "C13"); w.stream = 1; int k = 1 + r.below(2);
    for (int i = 0; i < k; i++) {
        sn::Pkt p; switch (r.below(9)) { case 8: p = mk::pingreq(r.chance(50) ? c.id : ""); break; case 0: p = mk::publish(2, 0, "ab", msgId(), 1 + r.below(2), payload(50)); break; case 1: p = mk::reg(0, msgId(), name()); break; case 2: p = mk::sub(msgId(), 1, 0, 0, name()); break; case 3: p = mk::unsub(msgId(), 0, 0, name()); break; case 4: p = mk::ack(sn::PUBACK, msgId(), 1, 0); break; case 5: p = mk::ack(sn::PUBREL, msgId()); break; case 6: p = mk::publish(2, 0, "ab", 0, 0, payload(50)); break; default: p = mk::disc(r.chance(50) ? -1 : 100); }
        viaSn(c, p); w.expSn(c.a, mk::disc(-1));
    }
    w.stream = 0; w.count("probe_checked", k); return true;
}
bool Model::opStranger() { // packets from an address no client has: nothing may come of them
    NetAddr a = addr(); w.tag = "C13,C12"; sn::Pkt p;
    switch (r.below(6)) { case 0: p = mk::publish(2, 0, "ab", msgId(), 1, payload(50)); break; case 1: p = mk::reg(0, msgId(), name()); break; case 2: p = mk::sub(msgId(), 1, 0, 0, name()); break; case 3: p = mk::disc(-1); break; case 4: p = mk::pingreq(cs.empty() ? "x" : r.pick(cs)->id); break; default: p = mk::ack(sn::PUBREL, msgId()); }
    viaSn(a, p); return true;
}
bool Model::opSearch() { // discovery
    sn::Pkt q = mk::simple(sn::SEARCHGW); q.radius = r.below(256); sn::Pkt g = mk::simple(sn::GWINFO); g.gwId = w.cfg.gwId;
    NetAddr a = r.chance(50) || cs.empty() ? addr() : r.pick(cs)->a; if (!a.port) a = addr();
    bool mc = r.chance(60); via(0, a, [this, a, q, mc] { w.sendRaw(a, sn::enc(q), mc); });
    w.tag = "C24"; w.stream = r.range(1, 1000000); w.expSn(w.mcast, g); w.stream = 0; w.count("search"); return true;
}
bool Model::opWillUpd(MC& c) { // not supported: says so, nothing reaches the broker
    if (c.st != MC::ACTIVE) return false;
    bool t = r.below(2); sn::Pkt p = t ? mk::willtopic(r.chance(20) ? "" : name(), r.below(3), r.below(2)) : mk::willmsg(payload(200)); p.type = t ? sn::WILLTOPICUPD : sn::WILLMSGUPD;
    w.tag = T(c, "C14"); w.stream = 6; viaSn(c, p); sn::Pkt e = mk::rcp(t ? sn::WILLTOPICRESP : sn::WILLMSGRESP, -1);
    w.expSn(c.a, e, nullptr, [](const sn::Pkt& g) { return g.rc == 0 ? Str("a will update was confirmed that never reached the broker") : Str(); }); w.stream = 0; return true;
}
bool Model::opBadFrame() { // encapsulation frames nobody may act on
    NetAddr a; Bytes node = cs.empty() ? bytes(3) : nodeId(r, 1); Bytes inner;
    int k = r.below(8);
    sn::Pkt p; MC* c = cs.empty() ? nullptr : r.pick(cs);
    switch (r.below(4)) { case 0: p = mk::connect(c ? c->id : "x"); break; case 1: p = mk::publish(2, 0, "ab", 0, 0, payload(40)); break; case 2: p = mk::disc(-1); break; default: p = mk::reg(0, 5, "topic"); }
    inner = sn::enc(p); Bytes f;
    if (k < 3 || fwds.empty()) { a = addr(); if (!nodes.empty() && r.chance(60)) node = r.pick(nodes); if (!fwds.empty() && r.chance(50)) { a = fwds[0]; if (r.chance(50)) a.port ^= 1; else a.ip ^= 0x100; if (a.port < 2 || std::find(fwds.begin(), fwds.end(), a) != fwds.end()) return false; } f = mk::encap(node, inner, r.below(256)); } // not a forwarder
    else { a = r.pick(fwds); switch (k) { // inner packet missing, truncated or of another length than it says; node unknown
        case 3: f = mk::encap(node, {}, 1); break;
        case 4: inner = sn::enc(mk::publish(2, 0, "ab", 0, 0, payload(40))); inner.pop_back(); f = mk::encap(nodes.empty() ? node : r.pick(nodes), inner, 1); break;
        case 6: case 7: f = mk::encap(nodes.empty() || r.chance(30) ? node : r.pick(nodes), r.chance(30) ? Bytes() : inner, 1); f[0] = (uint8_t)r.below(3); if (f[0] == 1) { if (r.chance(50)) { f.resize(1 + r.below(4)); f.back() = f.size() > 1 ? 0xfe : 1; } else f[0] = 2; } break; // a length no encapsulation has
        default: { Bytes n2 = nodeId(r, 200); if (std::find(nodes.begin(), nodes.end(), n2) != nodes.end()) return false; if (p.type == sn::CONNECT) inner = sn::enc(mk::disc(-1)); f = mk::encap(n2, inner, 1); } } }
    via(0, a, [this, a, f] { w.sendRaw(a, f); }); w.count("bad_frame"); return true;
}
// ---------------------------------------------------------------- sleep
bool Model::opSleep(MC& c) {
    if (c.st != MC::ACTIVE && c.st != MC::ASLEEP) return false;
    busy[&c] |= 1; c.rtag = "C15"; w.tag = T(c, "C15"); viaSn(c, mk::disc(r.chance(10) ? 256 * r.range(1, 255) : r.range(1, 0xFFFF))); w.stream = 1; w.expSn(c.a, mk::disc(-1)); w.stream = 0;
    std::vector<MC::Pend> keep; for (auto& p : c.pend) if (p.kind >= MC::D1 && p.kind <= MC::D2C) keep.push_back(p); if (c.st == MC::ACTIVE) c.pend = keep; c.st = MC::ASLEEP; w.count("sleep"); return true;
}
bool Model::opDownSleep(MC& c) {
    if (c.st != MC::ASLEEP || (busy[&c] & 1)) return false;
    int k = 1 + r.below(r.chance(20) ? 20 : 5); bool any = false;
    for (int i = 0; i < k; i++) {
        int tit, tid; Str t = pickTopic(c, tit, tid, false); 
        if (t.empty() || c.stored.size() >= 20) break;
        if (!c.clean && r.chance(15)) { t = name(100); bool nw = !c.table.count(t); for (auto& d : c.stored) if (d.topic == t) nw = false; for (auto& kk : c.predef) if (kk.second == t) nw = false; for (auto& kk : common) if (kk.second == t) nw = false; int fresh = 0; std::set<Str> fs; for (auto& d : c.stored) if (!c.idOf.count(d.topic) && d.topic.size() != 2 && fs.insert(d.topic).second) fresh++; if (!nw || tableUse(c) + fresh >= m.maxTopics || fresh > 4) t = shortName(); }
        else if (!c.stored.empty() && r.chance(20)) t = r.pick(c.stored).topic;
        Down d = mkDown(c, t); d.data = payload(r.chance(80) ? 100 : -1); c.stored.push_back(d); w.tag = T(c, "C15"); viaMq(c.conn, toMq(d)); any = true; w.count("stored");
    }
    if (any) busy[&c] |= 4;
    return any;
}
static void deliverStored(Model& md, MC& c) {
    md.w.tag = md.T(c, "C15"); int s = 100; std::map<Str, int> st;
    for (auto& d : c.stored) {
        bool known = d.topic.size() == 2 || c.idOf.count(d.topic); for (auto& k : c.predef) if (k.second == d.topic) known = true; for (auto& k : md.common) if (k.second == d.topic && c.predefUsed.count(k.first) && !c.predefNew.count(k.first)) known = true;
        int stream = 2; if (!known) { if (!st.count(d.topic)) { st[d.topic] = ++s; c.expectReg.insert(d.topic); c.table.insert(d.topic); } stream = st[d.topic]; }
        md.expDown(c, d, stream); md.owe(c, d); md.w.count("stored_checked");
    }
    c.stored.clear();
}
bool Model::opWake(MC& c, bool race, bool slow) { // slow: the broker lets the PINGREQ wait, the client stays awake
    if (c.st != MC::ASLEEP) return false;
    busy[&c] |= 1; c.rtag = "C15"; w.tag = T(c, "C15"); c.st = MC::AWAKE; c.awakePing = true; c.autoPings = 0; c.slow = slow;
    if (race) { // messages that arrive while the client is waking up
        int k = 1 + r.below(3);
        for (int i = 0; i < k && c.stored.size() < 19; i++) { int tit, tid; Str t = pickTopic(c, tit, tid, false); if (t.empty()) break; Down d = mkDown(c, t); d.data = payload(100); c.stored.push_back(d); viaMq(c.conn, toMq(d)); }
    }
    viaSn(c, mk::pingreq(c.id)); deliverStored(*this, c);
    w.tag = T(c, "C15"); w.count("wake_checked"); if (slow) { w.count("wake_slow"); return true; } w.stream = 50; World::ESn& e = w.expSn(c.a, mk::simple(sn::PINGRESP)); e.last = true; w.stream = 0; return true;
}
bool Model::opWakeEnd(MC& c) { // PINGRESP at last
    if (c.st != MC::AWAKE || !c.slow) return false;
    busy[&c] |= 1; c.rtag = "C15"; w.tag = T(c, "C15,C26"); viaMq(c.conn, mk::mack(mq::PINGRESP, 0)); w.stream = 50; w.expSn(c.a, mk::simple(sn::PINGRESP)).last = true; w.stream = 0; c.slow = false; w.count("wake_end_checked"); return true;
}
bool Model::opWakeConnect(MC& c) {
    if (c.st != MC::ASLEEP && !(c.st == MC::AWAKE && c.slow)) return false;
    if (c.slow) { MC::Pend p; p.kind = MC::PING; p.mid = 0; p.tid = 0; p.qos = 0; p.type = 0; p.rnd = rounds; c.pend.push_back(p); c.slow = false; }
    busy[&c] |= 1; c.rtag = "C15"; w.tag = T(c, "C15"); c.st = MC::ACTIVE; if (!c.fwd && !w.cfg.auth && r.chance(20)) { byAddr.erase(c.a); c.a = addr(); byAddr[c.a] = &c; }
    viaSn(c, mk::connect(c.id, c.ka, r.chance(50), false)); w.stream = 1; w.expSn(c.a, mk::rcp(sn::CONNACK, 0)); w.stream = 0; deliverStored(*this, c); w.count("wake_checked"); return true;
}
// ---------------------------------------------------------------- rounds
void Model::round(int k) {
    if (k < 0) k = m.batch <= 1 ? 1 : 1 + r.below((uint32_t)m.batch);
    busy.clear(); rounds++; regBurst = r.chance(6) ? 16 : 0; for (auto c : cs) c->rtag.clear();
    // clients whose CONNECT is with the broker get their answer sooner or later
    for (auto c : cs) if (c->st == MC::CONNECTING && !busy.count(c) && r.chance(70)) { bool rej = m.rejectConn && r.chance(m.rejectConn); opConnack(*c, rej ? (r.chance(20) ? r.range(1, 255) : 1 + r.below(5)) : 0); }
    struct O { int wt; int id; bool excl; };
    const O ops[] = {{m.pub, 0, 0}, {m.pubUnknown, 1, 0}, {m.sub, 2, 0}, {m.subBad, 3, 0}, {m.unsub, 4, 0}, {m.reg, 5, 0}, {m.down, 6, 0}, {m.downNew, 7, 0}, {m.downReject, 8, 0}, {m.downBig, 9, 0}, {m.progress, 10, 0}, {m.ping, 11, 0},
        {m.disc, 12, 1}, {m.reconnect, 13, 1}, {m.takeover, 14, 1}, {m.steal, 15, 1}, {m.refuse, 16, 1}, {m.will, 17, 1}, {m.brokerClose, 18, 1}, {m.probe, 19, 1}, {m.stranger, 20, 0}, {m.sleep, 21, 1}, {m.wake, 22, 1}, {m.wakeConnect, 23, 1}, {m.downSleep, 24, 0}, {m.wakeRace, 25, 1}, {m.search, 26, 0}, {m.willUpd, 27, 0}, {m.willStray, 35, 0}, {m.badFrame, 28, 0}, {m.attack, 29, 0}, {m.brokerAttack, 30, 0}, {m.wakeSlow, 31, 1}, {m.wakeSlow * 2, 32, 1}, {m.resend, 33, 0}, {m.forget, 34, 0}};
    attackBudget = 70; stallBudget = 3;
    int tot = 0; for (auto& o : ops) tot += o.wt;
    int done = 0;
    for (int tries = 0; tries < k * 12 && done < k && tot; tries++) {
        int x = r.below((uint32_t)tot); const O* o = ops; while (x >= o->wt) { x -= o->wt; o++; }
        MC& c = *r.pick(cs);
        if (busy[&c] & 1) continue;                    // the client changes its state in this round
        if (o->excl && busy[&c]) continue;
        if (!busy[&c]) busy.erase(&c);
        bool ok = false; w.stream = 0;
        switch (o->id) {
        case 0: ok = opPub(c); break; case 1: ok = opPubUnknown(c); break; case 2: ok = opSub(c); break; case 3: ok = opSubBad(c); break; case 4: ok = opUnsub(c); break; case 5: ok = opReg(c); break; case 6: ok = opDown(c); break; case 7: ok = opDownNew(c, false); for (int i = 0; ok && i < regBurst + 3 && regBurst; i++) opDownNew(c, false); break; case 8: ok = opDownNew(c, true); break; case 9: ok = opDownBig(c); break;
        case 10: { // one step of an exchange that was not touched in this round
            ok = opProgress(c); break; }
        case 11: ok = opPing(c); break; case 12: ok = opDisc(c); break; case 13: ok = opReconnect(c); break; case 14: ok = opTakeover(c); break; case 15: ok = opSteal(c); break; case 16: ok = opRefuse(c); break; case 17: ok = opWill(c); break; case 18: ok = opBrokerClose(c); break; case 19: ok = opProbe(c); break; case 20: ok = opStranger(); break;
        case 21: ok = opSleep(c); break; case 22: ok = opWake(c, false); break; case 23: ok = opWakeConnect(c); break; case 24: ok = opDownSleep(c); break; case 25: ok = opWake(c, true); break; case 26: ok = opSearch(); break; case 27: ok = opWillUpd(c); break; case 28: ok = opBadFrame(); break; case 29: ok = opAttack(); break; case 30: ok = opBrokerAttack(); break;
        case 31: ok = opWake(c, r.chance(30), true); break; case 32: ok = opWakeEnd(c); break; case 33: ok = opResend(c); break; case 34: ok = opForget(c); break; case 35: ok = opWillStray(c); break;
        }
        if (ok) { done++; if (!busy.count(&c)) busy[&c] |= 2; }
    }
    flush();
    for (auto c : cs) {
        c->predefNew.clear();
        for (size_t i = 0; i < c->pend.size();) if (c->pend[i].kind == 99) c->pend.erase(c->pend.begin() + i); else i++;
        if (c->st == MC::AWAKE) { c->awakePing = false; if (!c->slow) c->st = MC::ASLEEP; }
    }
    uint64_t h = 7; for (auto c : cs) { h = fnv(&c->st, sizeof c->st, h); int z[4] = {(int)c->pend.size(), (int)c->idOf.size(), (int)c->stored.size(), c->clean}; h = fnv(z, sizeof z, h); } w.state(h);
    w.count("rounds");
    if (m.idlePct && r.chance(m.idlePct)) { w.advance(r.range(1, m.idleMax) * 1000000ll); w.check(); w.count("idle"); }
}
void Model::runRounds(int n) { for (int i = 0; i < n; i++) round(); }
