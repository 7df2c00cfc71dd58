// Independent reference codecs written from the MQTT-SN v1.2 and MQTT 3.1.1 specifications.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
typedef std::string Str;

namespace sn {
enum { ADVERTISE = 0x00, SEARCHGW = 0x01, GWINFO = 0x02, CONNECT = 0x04, CONNACK = 0x05, WILLTOPICREQ = 0x06, WILLTOPIC = 0x07, WILLMSGREQ = 0x08, WILLMSG = 0x09,
       REGISTER = 0x0A, REGACK = 0x0B, PUBLISH = 0x0C, PUBACK = 0x0D, PUBCOMP = 0x0E, PUBREC = 0x0F, PUBREL = 0x10, SUBSCRIBE = 0x12, SUBACK = 0x13,
       UNSUBSCRIBE = 0x14, UNSUBACK = 0x15, PINGREQ = 0x16, PINGRESP = 0x17, DISCONNECT = 0x18, WILLTOPICUPD = 0x1A, WILLTOPICRESP = 0x1B,
       WILLMSGUPD = 0x1C, WILLMSGRESP = 0x1D, ENCAP = 0xFE };
inline const char* name(int t) {
    switch (t) { case 0: return "ADVERTISE"; case 1: return "SEARCHGW"; case 2: return "GWINFO"; case 4: return "CONNECT"; case 5: return "CONNACK"; case 6: return "WILLTOPICREQ"; case 7: return "WILLTOPIC"; case 8: return "WILLMSGREQ"; case 9: return "WILLMSG"; case 0xA: return "REGISTER"; case 0xB: return "REGACK"; case 0xC: return "PUBLISH"; case 0xD: return "PUBACK"; case 0xE: return "PUBCOMP"; case 0xF: return "PUBREC"; case 0x10: return "PUBREL"; case 0x12: return "SUBSCRIBE"; case 0x13: return "SUBACK"; case 0x14: return "UNSUBSCRIBE"; case 0x15: return "UNSUBACK"; case 0x16: return "PINGREQ"; case 0x17: return "PINGRESP"; case 0x18: return "DISCONNECT"; case 0x1A: return "WILLTOPICUPD"; case 0x1B: return "WILLTOPICRESP"; case 0x1C: return "WILLMSGUPD"; case 0x1D: return "WILLMSGRESP"; case 0xFE: return "ENCAP"; }
    return "?"; }
// A decoded packet: only the fields of its type are meaningful.
struct Pkt {
    int type = -1;
    int dup = 0, qos = 0, retain = 0, will = 0, clean = 0, tit = 0; // flags
    int topicId = 0, msgId = 0, rc = 0, duration = -1, gwId = 0, radius = 0, protocol = 1;
    Bytes name;   // topic name, client id, will topic, address
    Bytes data;   // payload, will message, encapsulated rest
    Bytes node;   // wireless node id
    int ctrl = 0;
    bool ok = false;
    Str why;
};
inline Bytes frame(int type, const Bytes& body) {
    Bytes o; size_t n = body.size() + 2;
    if (n <= 255) o.push_back((uint8_t)n); else { n += 2; o.push_back(1); o.push_back((uint8_t)(n >> 8)); o.push_back((uint8_t)n); }
    o.push_back((uint8_t)type); o.insert(o.end(), body.begin(), body.end()); return o;
}
inline uint8_t flags(const Pkt& p) { return (uint8_t)((p.dup << 7) | ((p.qos & 3) << 5) | (p.retain << 4) | (p.will << 3) | (p.clean << 2) | (p.tit & 3)); }
inline void u16(Bytes& b, int v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline void cat(Bytes& b, const Bytes& c) { b.insert(b.end(), c.begin(), c.end()); }
inline Bytes B(const Str& s) { return Bytes(s.begin(), s.end()); }
inline Str S(const Bytes& b) { return Str(b.begin(), b.end()); }
inline Bytes enc(const Pkt& p) {
    Bytes b;
    switch (p.type) {
    case ADVERTISE: b.push_back((uint8_t)p.gwId); u16(b, p.duration); break;
    case SEARCHGW: b.push_back((uint8_t)p.radius); break;
    case GWINFO: b.push_back((uint8_t)p.gwId); cat(b, p.name); break;
    case CONNECT: b.push_back(flags(p)); b.push_back((uint8_t)p.protocol); u16(b, p.duration); cat(b, p.name); break;
    case CONNACK: case WILLTOPICRESP: case WILLMSGRESP: b.push_back((uint8_t)p.rc); break;
    case WILLTOPICREQ: case WILLMSGREQ: case PINGRESP: break;
    case WILLTOPIC: case WILLTOPICUPD: if (!p.name.empty()) { b.push_back(flags(p)); cat(b, p.name); } break;
    case WILLMSG: case WILLMSGUPD: cat(b, p.data); break;
    case REGISTER: u16(b, p.topicId); u16(b, p.msgId); cat(b, p.name); break;
    case REGACK: case PUBACK: u16(b, p.topicId); u16(b, p.msgId); b.push_back((uint8_t)p.rc); break;
    case PUBLISH: b.push_back(flags(p)); if (p.tit == 2) { b.push_back(p.name.size() > 0 ? p.name[0] : 0); b.push_back(p.name.size() > 1 ? p.name[1] : 0); } else u16(b, p.topicId); u16(b, p.msgId); cat(b, p.data); break;
    case PUBREC: case PUBREL: case PUBCOMP: case UNSUBACK: u16(b, p.msgId); break;
    case SUBSCRIBE: case UNSUBSCRIBE: b.push_back(flags(p)); u16(b, p.msgId); if (p.tit == 1) u16(b, p.topicId); else cat(b, p.name); break;
    case SUBACK: b.push_back(flags(p)); u16(b, p.topicId); u16(b, p.msgId); b.push_back((uint8_t)p.rc); break;
    case PINGREQ: cat(b, p.name); break;
    case DISCONNECT: if (p.duration >= 0) u16(b, p.duration); break;
    }
    return frame(p.type, b);
}
inline Pkt dec(const Bytes& d) {
    Pkt p; p.ok = false;
    if (d.size() < 2) { p.why = "too short"; return p; }
    size_t n = d[0], h = 1;
    if (n == 1) { if (d.size() < 4) { p.why = "short long-form"; return p; } n = (size_t)d[1] << 8 | d[2]; h = 3; if (n < 4) { p.why = "bad long length"; return p; } }
    else if (n < 2) { p.why = "length 0"; return p; }
    p.type = d[h];
    if (p.type == ENCAP) { // length counts only the encapsulation header
        if (n > d.size() || h != 1 || n < 3) { p.why = "bad encapsulation length"; return p; }
        p.ctrl = d[2]; p.node.assign(d.begin() + 3, d.begin() + n); p.data.assign(d.begin() + n, d.end()); p.ok = true; return p; }
    if (n != d.size()) { char b[80]; snprintf(b, sizeof b, "length field %zu but %zu bytes", n, d.size()); p.why = b; return p; }
    if (h == 3 && n < 256) { /* allowed by the spec, though wasteful */ }
    Bytes b(d.begin() + h + 1, d.end());
    auto need = [&](size_t k) { if (b.size() != k) { char t[64]; snprintf(t, sizeof t, "body of %zu bytes, want %zu", b.size(), k); p.why = t; return false; } return true; };
    auto atleast = [&](size_t k) { if (b.size() < k) { p.why = "body too short"; return false; } return true; };
    auto fl = [&](uint8_t f) { p.dup = f >> 7; p.qos = (f >> 5) & 3; p.retain = (f >> 4) & 1; p.will = (f >> 3) & 1; p.clean = (f >> 2) & 1; p.tit = f & 3; };
    auto g16 = [&](size_t i) { return (int)b[i] << 8 | b[i + 1]; };
    switch (p.type) {
    case ADVERTISE: if (!need(3)) return p; p.gwId = b[0]; p.duration = g16(1); break;
    case SEARCHGW: if (!need(1)) return p; p.radius = b[0]; break;
    case GWINFO: if (!atleast(1)) return p; p.gwId = b[0]; p.name.assign(b.begin() + 1, b.end()); break;
    case CONNECT: if (!atleast(4)) return p; fl(b[0]); p.protocol = b[1]; p.duration = g16(2); p.name.assign(b.begin() + 4, b.end()); break;
    case CONNACK: case WILLTOPICRESP: case WILLMSGRESP: if (!need(1)) return p; p.rc = b[0]; break;
    case WILLTOPICREQ: case WILLMSGREQ: case PINGRESP: if (!need(0)) return p; break;
    case WILLTOPIC: case WILLTOPICUPD: if (!b.empty()) { fl(b[0]); p.name.assign(b.begin() + 1, b.end()); } break;
    case WILLMSG: case WILLMSGUPD: p.data = b; break;
    case REGISTER: if (!atleast(4)) return p; p.topicId = g16(0); p.msgId = g16(2); p.name.assign(b.begin() + 4, b.end()); break;
    case REGACK: case PUBACK: if (!need(5)) return p; p.topicId = g16(0); p.msgId = g16(2); p.rc = b[4]; break;
    case PUBLISH: if (!atleast(5)) return p; fl(b[0]); p.topicId = g16(1); if (p.tit == 2) p.name.assign(b.begin() + 1, b.begin() + 3); p.msgId = g16(3); p.data.assign(b.begin() + 5, b.end()); break;
    case PUBREC: case PUBREL: case PUBCOMP: case UNSUBACK: if (!need(2)) return p; p.msgId = g16(0); break;
    case SUBSCRIBE: case UNSUBSCRIBE: if (!atleast(3)) return p; fl(b[0]); p.msgId = g16(1); if (p.tit == 1) { if (!need(5)) return p; p.topicId = g16(3); } else p.name.assign(b.begin() + 3, b.end()); break;
    case SUBACK: if (!need(6)) return p; fl(b[0]); p.topicId = g16(1); p.msgId = g16(3); p.rc = b[5]; break;
    case PINGREQ: p.name = b; break;
    case DISCONNECT: if (!b.empty()) { if (!need(2)) return p; p.duration = g16(0); } break;
    default: p.why = "unknown type"; return p;
    }
    p.ok = true;
    return p;
}
inline Str show(const Bytes& b, size_t max = 24) { Str s; char t[8]; for (size_t i = 0; i < b.size() && i < max; i++) { if (b[i] >= 33 && b[i] < 127 && b[i] != '"' && b[i] != '\\') s += (char)b[i]; else { snprintf(t, sizeof t, "<%02x>", b[i]); s += t; } } if (b.size() > max) { snprintf(t, sizeof t, "..%zu", b.size()); s += t; } return s; }
inline Str str(const Pkt& p) {
    char b[400];
    if (!p.ok) { snprintf(b, sizeof b, "UNDECODABLE type=%d (%s)", p.type, p.why.c_str()); return b; }
    snprintf(b, sizeof b, "%s q=%d r=%d d=%d w=%d c=%d tit=%d tid=%d mid=%d rc=%d dur=%d gw=%d name=%s data[%zu]=%s", name(p.type), p.qos, p.retain, p.dup, p.will, p.clean, p.tit, p.topicId, p.msgId, p.rc, p.duration, p.gwId, show(p.name).c_str(), p.data.size(), show(p.data, 12).c_str());
    return b;
}
} // namespace sn

namespace mq {
enum { CONNECT = 1, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT };
inline const char* name(int t) { static const char* n[] = {"?0", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "?15"}; return n[t & 15]; }
struct Pkt {
    int type = 0, dup = 0, qos = 0, retain = 0, msgId = 0, rc = 0;
    Bytes topic, payload;
    Bytes clientId, willTopic, willMsg, user, pass; bool will = false, hasUser = false, hasPass = false, clean = false; int willQos = 0, willRetain = 0, keepAlive = 0, level = 0; Str proto;
    bool ok = false; Str why;
};
inline void u16(Bytes& b, size_t v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline void str(Bytes& b, const Bytes& s) { u16(b, s.size()); b.insert(b.end(), s.begin(), s.end()); }
inline Bytes frame(uint8_t h, const Bytes& body) { Bytes o; o.push_back(h); size_t n = body.size(); do { uint8_t d = n % 128; n /= 128; if (n) d |= 128; o.push_back(d); } while (n); o.insert(o.end(), body.begin(), body.end()); return o; }
inline Bytes enc(const Pkt& p) {
    Bytes b;
    switch (p.type) {
    case CONNACK: b.push_back(0); b.push_back((uint8_t)p.rc); return frame(0x20, b);
    case PUBLISH: str(b, p.topic); if (p.qos) u16(b, p.msgId); b.insert(b.end(), p.payload.begin(), p.payload.end()); return frame((uint8_t)(0x30 | p.dup << 3 | p.qos << 1 | p.retain), b);
    case PUBACK: case PUBREC: case PUBCOMP: case UNSUBACK: u16(b, p.msgId); return frame((uint8_t)(p.type << 4), b);
    case PUBREL: u16(b, p.msgId); return frame(0x62, b);
    case SUBACK: u16(b, p.msgId); b.push_back((uint8_t)p.rc); return frame(0x90, b);
    case PINGRESP: return frame(0xD0, b);
    }
    return Bytes();
}
// one complete packet (strict, client-to-server direction)
inline Pkt dec(const Bytes& d, size_t off, size_t& used) {
    Pkt p; used = 0;
    if (off + 2 > d.size()) return p;
    size_t i = off + 1, n = 0, mul = 1; int k = 0;
    while (true) { if (i >= d.size()) return p; uint8_t c = d[i++]; n += (size_t)(c & 127) * mul; mul *= 128; if (!(c & 128)) break; if (++k >= 4) { p.why = "bad remaining length"; used = d.size() - off; return p; } }
    if (i + n > d.size()) return p;
    used = i + n - off;
    uint8_t h = d[off]; p.type = h >> 4; int fl = h & 15;
    size_t e = i + n;
    auto g16 = [&](int& v) { if (i + 2 > e) return false; v = d[i] << 8 | d[i + 1]; i += 2; return true; };
    auto gstr = [&](Bytes& s) { int l; if (!g16(l)) return false; if (i + (size_t)l > e) return false; s.assign(d.begin() + i, d.begin() + i + l); i += l; return true; };
    auto bad = [&](const char* w) { p.why = w; p.ok = false; return p; };
    if (p.type != PUBLISH) { int want = (p.type == PUBREL || p.type == SUBSCRIBE || p.type == UNSUBSCRIBE) ? 2 : 0; if (fl != want) return bad("reserved flag bits"); }
    switch (p.type) {
    case CONNECT: {
        Bytes pr; if (!gstr(pr)) return bad("proto"); p.proto = Str(pr.begin(), pr.end()); if (i + 2 > e) return bad("connect"); p.level = d[i++]; uint8_t f = d[i++]; if (!g16(p.keepAlive)) return bad("ka");
        if (f & 1) return bad("reserved connect flag");
        p.clean = f & 2; p.will = f & 4; p.willQos = (f >> 3) & 3; p.willRetain = (f >> 5) & 1; p.hasPass = f & 0x40; p.hasUser = f & 0x80;
        if (!p.will && (p.willQos || p.willRetain)) return bad("will bits without will");
        if (!gstr(p.clientId)) return bad("client id"); if (p.will && (!gstr(p.willTopic) || !gstr(p.willMsg))) return bad("will"); if (p.hasUser && !gstr(p.user)) return bad("user"); if (p.hasPass && !gstr(p.pass)) return bad("pass"); break; }
    case PUBLISH: p.dup = fl >> 3; p.qos = (fl >> 1) & 3; p.retain = fl & 1; if (p.qos == 3) return bad("qos 3"); if (!gstr(p.topic)) return bad("topic"); if (p.qos && !g16(p.msgId)) return bad("msgid"); p.payload.assign(d.begin() + i, d.begin() + e); i = e; break;
    case PUBACK: case PUBREC: case PUBREL: case PUBCOMP: if (!g16(p.msgId)) return bad("msgid"); break;
    case SUBSCRIBE: if (!g16(p.msgId)) return bad("msgid"); if (!gstr(p.topic)) return bad("topic"); if (i >= e) return bad("qos"); p.qos = d[i++]; if (p.qos > 2) return bad("requested qos"); break;
    case UNSUBSCRIBE: if (!g16(p.msgId)) return bad("msgid"); if (!gstr(p.topic)) return bad("topic"); break;
    case PINGREQ: case DISCONNECT: break;
    default: return bad("packet type not allowed from a client");
    }
    if (i != e) return bad("trailing bytes");
    p.ok = true; return p;
}
inline Str str(const Pkt& p) {
    char b[500];
    if (!p.ok) { snprintf(b, sizeof b, "MALFORMED MQTT type=%d (%s)", p.type, p.why.c_str()); return b; }
    if (p.type == CONNECT) snprintf(b, sizeof b, "CONNECT id=%s ka=%d clean=%d will=%d wq=%d wr=%d wt=%s wm=%s user=%d pass=%d level=%d", sn::show(p.clientId).c_str(), p.keepAlive, p.clean, p.will, p.willQos, p.willRetain, sn::show(p.willTopic).c_str(), sn::show(p.willMsg).c_str(), p.hasUser, p.hasPass, p.level);
    else snprintf(b, sizeof b, "%s q=%d r=%d d=%d mid=%d topic=%s payload[%zu]=%s", name(p.type), p.qos, p.retain, p.dup, p.msgId, sn::show(p.topic).c_str(), p.payload.size(), sn::show(p.payload, 12).c_str());
    return b;
}
} // namespace mq
