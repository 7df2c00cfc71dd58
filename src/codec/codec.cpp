// C01-C04: the packet library against the reference codec, on exact-size buffers.
#include "../kit/kit.h"
#include <stdlib.h>
#include <string.h>
#include <sanitizer/asan_interface.h>
extern "C" {
#include "MQTTSNPacket.h"
}
#undef min
using namespace kit;
namespace {
const int TYPES[] = {sn::ADVERTISE, sn::SEARCHGW, sn::GWINFO, sn::CONNECT, sn::CONNACK, sn::WILLTOPICREQ, sn::WILLTOPIC, sn::WILLMSGREQ, sn::WILLMSG, sn::REGISTER, sn::REGACK, sn::PUBLISH, sn::PUBACK, sn::PUBCOMP, sn::PUBREC, sn::PUBREL, sn::SUBSCRIBE, sn::SUBACK, sn::UNSUBSCRIBE, sn::UNSUBACK, sn::PINGREQ, sn::PINGRESP, sn::DISCONNECT, sn::WILLTOPICUPD, sn::WILLTOPICRESP, sn::WILLMSGUPD, sn::WILLMSGRESP};
const int NT = sizeof TYPES / sizeof *TYPES;

// memory of exactly n usable bytes, unaddressable on both sides
struct Exact {
    uint8_t* base; uint8_t* p; size_t n;
    explicit Exact(size_t n) : n(n) { base = (uint8_t*)malloc(n + 128); size_t off = 64; p = base + off; __asan_poison_memory_region(base, off); size_t tail = off + n; // byte-granular tail: place the block so that it ends where poisoning can start exactly
        // asan poisons 8-byte granules with a partially addressable last granule only when the addressable part comes first, which is the case here
        __asan_poison_memory_region(base + tail, 128 - off); }
    Exact(const Exact&) = delete;
    ~Exact() { __asan_unpoison_memory_region(base, n + 128); free(base); }
};
struct Strv { MQTTSNString s; char* z = nullptr; Exact* e = nullptr; ~Strv() { free(z); delete e; } };
void mkString(Strv& o, const Bytes& b, Rng& r) {
    memset(&o.s, 0, sizeof o.s);
    bool nul = memchr(b.data() ? (const void*)b.data() : (const void*)"", 0, b.size()) != nullptr;
    if (!nul && r.chance(40)) { o.z = (char*)malloc(b.size() + 1); if (b.size()) memcpy(o.z, b.data(), b.size()); o.z[b.size()] = 0; o.s.cstring = o.z; if (r.chance(10)) { o.s.lenstring.len = 3; o.s.lenstring.data = o.z; o.e = nullptr; if (b.size() < 3) { o.s.lenstring.len = 0; } } }
    else { o.e = new Exact(b.size()); if (b.size()) memcpy(o.e->p, b.data(), b.size()); o.s.lenstring.len = (int)b.size(); o.s.lenstring.data = (char*)o.e->p; }
}
// the rest of a packet of this type can grow by variable data; give it the wanted total length if possible
sn::Pkt gen(Rng& r, int type, int total) {
    sn::Pkt p; p.type = type;
    auto v16 = [&] { switch (r.below(6)) { case 0: return 0; case 1: return 0xFFFF; case 2: return 256 * r.range(0, 255); case 3: return r.range(0, 255); case 4: return 0x7F80 + (int)r.below(0x100); default: return r.range(0, 0xFFFF); } };
    auto bytes = [&](int n) { Bytes b(n < 0 ? 0 : n); int m = r.below(4); for (auto& x : b) x = m == 0 ? (uint8_t)(1 + r.below(255)) : m == 1 ? 'a' + r.below(26) : m == 2 ? (uint8_t)r.below(3) : (uint8_t)r.next(); return b; };
    int fixed = (int)sn::enc(p).size(); // 1-byte length form, no variable part
    switch (type) { case sn::SUBSCRIBE: case sn::UNSUBSCRIBE: break; case sn::WILLTOPIC: case sn::WILLTOPICUPD: fixed = 3; break; }
    int var = total - fixed; if (total > 255) var -= 2; if (var < 0) var = 0;
    p.gwId = r.below(256); p.radius = r.below(256); p.rc = r.below(256); p.topicId = v16(); p.msgId = v16();
    switch (type) {
    case sn::ADVERTISE: p.duration = v16(); break;
    case sn::GWINFO: p.name = bytes(var); break;
    case sn::CONNECT: p.clean = r.below(2); p.will = r.below(2); p.duration = v16(); p.name = bytes(var); break;
    case sn::WILLTOPIC: case sn::WILLTOPICUPD: p.qos = r.below(4); p.retain = r.below(2); p.name = bytes(var); break;
    case sn::WILLMSG: case sn::WILLMSGUPD: p.data = bytes(var); break;
    case sn::REGISTER: case sn::PINGREQ: p.name = bytes(var); break;
    case sn::PUBLISH: p.dup = r.below(2); p.qos = r.below(4); p.retain = r.below(2); p.tit = r.below(3); if (p.tit == 2) { p.name = bytes(2); p.topicId = p.name[0] << 8 | p.name[1]; } p.data = bytes(var); if (p.tit == 0 && p.qos == 3) p.topicId = r.below((uint32_t)p.data.size() + 1); break;
    case sn::SUBSCRIBE: case sn::UNSUBSCRIBE: if (type == sn::SUBSCRIBE) { p.dup = r.below(2); p.qos = r.below(4); } p.tit = r.below(3); if (p.tit == 2) p.name = bytes(2); else if (p.tit == 0) p.name = bytes(var); break;
    case sn::SUBACK: p.qos = r.below(4); break;
    case sn::DISCONNECT: p.duration = r.chance(30) ? -1 : v16(); if (p.duration == 0) p.duration = -1; break;
    }
    return p;
}
// how many bytes the library's serialiser for p writes according to the specification
Bytes want(const sn::Pkt& p) { return sn::enc(p); }
bool emptyWill(const sn::Pkt& p) { return (p.type == sn::WILLTOPIC || p.type == sn::WILLTOPICUPD) && p.name.empty(); }

int serialize(const sn::Pkt& p, unsigned char* buf, int n, Rng& r) {
    Strv s; MQTTSN_topicid t; memset(&t, 0x5A, sizeof t);
    switch (p.type) {
    case sn::ADVERTISE: return MQTTSNSerialize_advertise(buf, n, p.gwId, p.duration);
    case sn::SEARCHGW: return MQTTSNSerialize_searchgw(buf, n, p.radius);
    case sn::GWINFO: { Exact e(p.name.size()); if (p.name.size()) memcpy(e.p, p.name.data(), p.name.size()); return MQTTSNSerialize_gwinfo(buf, n, p.gwId, (unsigned short)p.name.size(), p.name.empty() && r.chance(50) ? nullptr : e.p); }
    case sn::CONNECT: { MQTTSNPacket_connectData d = MQTTSNPacket_connectData_initializer; mkString(s, p.name, r); d.clientID = s.s; d.duration = p.duration; d.cleansession = p.clean; d.willFlag = p.will; return MQTTSNSerialize_connect(buf, n, &d); }
    case sn::CONNACK: return MQTTSNSerialize_connack(buf, n, p.rc);
    case sn::WILLTOPICREQ: return MQTTSNSerialize_willtopicreq(buf, n);
    case sn::WILLTOPIC: mkString(s, p.name, r); return MQTTSNSerialize_willtopic(buf, n, p.qos, p.retain, s.s);
    case sn::WILLTOPICUPD: mkString(s, p.name, r); return MQTTSNSerialize_willtopicupd(buf, n, p.qos, p.retain, s.s);
    case sn::WILLMSGREQ: return MQTTSNSerialize_willmsgreq(buf, n);
    case sn::WILLMSG: mkString(s, p.data, r); return MQTTSNSerialize_willmsg(buf, n, s.s);
    case sn::WILLMSGUPD: mkString(s, p.data, r); return MQTTSNSerialize_willmsgupd(buf, n, s.s);
    case sn::REGISTER: mkString(s, p.name, r); return MQTTSNSerialize_register(buf, n, p.topicId, p.msgId, &s.s);
    case sn::REGACK: return MQTTSNSerialize_regack(buf, n, p.topicId, p.msgId, p.rc);
    case sn::PUBLISH: {
        int off = 0; t.type = (MQTTSN_topicTypes)p.tit;
        if (p.tit == 2) { t.data.short_name[0] = p.name[0]; t.data.short_name[1] = p.name[1]; }
        else if (p.tit == 0 && p.qos == 3) { off = p.topicId; }
        else t.data.id = p.topicId;
        Exact nm(off), pl(p.data.size() - off);
        if (off) memcpy(nm.p, p.data.data(), off);
        if (pl.n) memcpy(pl.p, p.data.data() + off, pl.n);
        if (p.tit == 0 && p.qos == 3) { t.data.long_.name = (char*)nm.p; t.data.long_.len = off; }
        return MQTTSNSerialize_publish(buf, n, p.dup, p.qos, p.retain, p.msgId, t, pl.p, (int)pl.n); }
    case sn::PUBACK: return MQTTSNSerialize_puback(buf, n, p.topicId, p.msgId, p.rc);
    case sn::PUBREC: return MQTTSNSerialize_pubrec(buf, n, p.msgId);
    case sn::PUBREL: return MQTTSNSerialize_pubrel(buf, n, p.msgId);
    case sn::PUBCOMP: return MQTTSNSerialize_pubcomp(buf, n, p.msgId);
    case sn::SUBSCRIBE: case sn::UNSUBSCRIBE: {
        t.type = (MQTTSN_topicTypes)p.tit; Exact nm(p.name.size()); if (nm.n) memcpy(nm.p, p.name.data(), nm.n);
        if (p.tit == 0) { t.data.long_.name = (char*)nm.p; t.data.long_.len = (int)nm.n; } else if (p.tit == 1) t.data.id = p.topicId; else { t.data.short_name[0] = p.name[0]; t.data.short_name[1] = p.name[1]; }
        return p.type == sn::SUBSCRIBE ? MQTTSNSerialize_subscribe(buf, n, p.dup, p.qos, p.msgId, &t) : MQTTSNSerialize_unsubscribe(buf, n, p.msgId, &t); }
    case sn::SUBACK: return MQTTSNSerialize_suback(buf, n, p.qos, p.topicId, p.msgId, p.rc);
    case sn::UNSUBACK: return MQTTSNSerialize_unsuback(buf, n, p.msgId);
    case sn::PINGREQ: mkString(s, p.name, r); return MQTTSNSerialize_pingreq(buf, n, s.s);
    case sn::PINGRESP: return MQTTSNSerialize_pingresp(buf, n);
    case sn::DISCONNECT: return MQTTSNSerialize_disconnect(buf, n, p.duration < 0 ? 0 : p.duration);
    case sn::WILLTOPICRESP: return MQTTSNSerialize_willtopicresp(buf, n, p.rc);
    case sn::WILLMSGRESP: return MQTTSNSerialize_willmsgresp(buf, n, p.rc);
    }
    abort();
}
struct View { const uint8_t* p; long n; };
struct Out { sn::Pkt p; int rc; std::vector<View> views; std::vector<Bytes*> dst; bool dontCareDur = false; };
// decodes with the library's deserialiser for `type`; the views are only copied after they were checked to lie inside [b, b+n)
void deserialize(Out& o, int type, unsigned char* b, int n, uint8_t fill) {
    sn::Pkt& p = o.p; p.type = type; int rc = -99;
    MQTTSNString s; memset(&s, fill, sizeof s); MQTTSN_topicid t; memset(&t, fill, sizeof t);
    unsigned char u1 = fill, u2 = fill, u3 = fill; int q = fill, i1 = fill; unsigned short h1 = fill, h2 = fill;
    auto str = [&](Bytes& d) { if (s.cstring) fail("%s: cstring set by the deserialiser", sn::name(type)); o.views.push_back({(uint8_t*)s.lenstring.data, s.lenstring.len}); o.dst.push_back(&d); };
    switch (type) {
    case sn::ADVERTISE: rc = MQTTSNDeserialize_advertise(&u1, &h1, b, n); p.gwId = u1; p.duration = h1; break;
    case sn::SEARCHGW: rc = MQTTSNDeserialize_searchgw(&u1, b, n); p.radius = u1; break;
    case sn::GWINFO: { unsigned char* a = nullptr; rc = MQTTSNDeserialize_gwinfo(&u1, &h1, &a, b, n); p.gwId = u1; if (rc == 1) { o.views.push_back({a, h1}); o.dst.push_back(&p.name); } break; }
    case sn::CONNECT: { MQTTSNPacket_connectData d; memset(&d, fill, sizeof d); rc = MQTTSNDeserialize_connect(&d, b, n); p.duration = d.duration; p.clean = d.cleansession; p.will = d.willFlag; s = d.clientID; if (rc == 1) str(p.name); break; }
    case sn::CONNACK: rc = MQTTSNDeserialize_connack(&i1, b, n); p.rc = (unsigned char)i1; break;
    case sn::WILLTOPICREQ: rc = MQTTSNDeserialize_willtopicreq(b, n); break;
    case sn::WILLMSGREQ: rc = MQTTSNDeserialize_willmsgreq(b, n); break;
    case sn::WILLTOPIC: rc = MQTTSNDeserialize_willtopic(&q, &u1, &s, b, n); p.qos = q; p.retain = u1; if (rc == 1) str(p.name); break;
    case sn::WILLTOPICUPD: rc = MQTTSNDeserialize_willtopicupd(&q, &u1, &s, b, n); p.qos = q; p.retain = u1; if (rc == 1) str(p.name); break;
    case sn::WILLMSG: rc = MQTTSNDeserialize_willmsg(&s, b, n); if (rc == 1) str(p.data); break;
    case sn::WILLMSGUPD: rc = MQTTSNDeserialize_willmsgupd(&s, b, n); if (rc == 1) str(p.data); break;
    case sn::REGISTER: rc = MQTTSNDeserialize_register(&h1, &h2, &s, b, n); p.topicId = h1; p.msgId = h2; if (rc == 1) str(p.name); break;
    case sn::REGACK: rc = MQTTSNDeserialize_regack(&h1, &h2, &u1, b, n); p.topicId = h1; p.msgId = h2; p.rc = u1; break;
    case sn::PUBLISH: {
        unsigned char* pl = nullptr; int pn = fill;
        rc = MQTTSNDeserialize_publish(&u1, &q, &u2, &h2, &t, &pl, &pn, b, n);
        p.dup = u1; p.qos = q; p.retain = u2; p.msgId = h2; p.tit = t.type;
        if (rc == 1) {
            if (t.type == 0 && q == 3) { p.topicId = t.data.long_.len; o.views.push_back({(uint8_t*)t.data.long_.name, t.data.long_.len}); o.dst.push_back(&p.node); }
            else if (t.type == 0 || t.type == 1) p.topicId = t.data.id;
            else { p.name = {(uint8_t)t.data.short_name[0], (uint8_t)t.data.short_name[1]}; p.topicId = p.name[0] << 8 | p.name[1]; }
            o.views.push_back({pl, pn}); o.dst.push_back(&p.data);
        }
        break; }
    case sn::PUBACK: rc = MQTTSNDeserialize_puback(&h1, &h2, &u1, b, n); p.topicId = h1; p.msgId = h2; p.rc = u1; break;
    case sn::PUBREC: case sn::PUBREL: case sn::PUBCOMP: rc = MQTTSNDeserialize_ack(&u1, &h2, b, n); p.msgId = h2; if (rc == 1) p.type = u1; break;
    case sn::SUBSCRIBE: case sn::UNSUBSCRIBE:
        if (type == sn::SUBSCRIBE) { rc = MQTTSNDeserialize_subscribe(&u1, &q, &h2, &t, b, n); p.dup = u1; p.qos = q; } else rc = MQTTSNDeserialize_unsubscribe(&h2, &t, b, n);
        p.msgId = h2; p.tit = t.type;
        if (rc == 1) { if (t.type == 0) { o.views.push_back({(uint8_t*)t.data.long_.name, t.data.long_.len}); o.dst.push_back(&p.name); } else if (t.type == 1) p.topicId = t.data.id; else p.name = {(uint8_t)t.data.short_name[0], (uint8_t)t.data.short_name[1]}; }
        break;
    case sn::SUBACK: rc = MQTTSNDeserialize_suback(&q, &h1, &h2, &u1, b, n); p.qos = q; p.topicId = h1; p.msgId = h2; p.rc = u1; break;
    case sn::UNSUBACK: rc = MQTTSNDeserialize_unsuback(&h2, b, n); p.msgId = h2; break;
    case sn::PINGREQ: rc = MQTTSNDeserialize_pingreq(&s, b, n); if (rc == 1) str(p.name); break;
    case sn::PINGRESP: rc = MQTTSNDeserialize_pingresp(b, n); break;
    case sn::DISCONNECT: i1 = fill; rc = MQTTSNDeserialize_disconnect(&i1, b, n); p.duration = i1; break;
    case sn::WILLTOPICRESP: rc = MQTTSNDeserialize_willtopicresp(&i1, b, n); p.rc = (unsigned char)i1; break;
    case sn::WILLMSGRESP: rc = MQTTSNDeserialize_willmsgresp(&i1, b, n); p.rc = (unsigned char)i1; break;
    }
    o.rc = rc;
    if (rc == 1)
        for (size_t i = 0; i < o.views.size(); i++) {
            View& v = o.views[i];
            if (v.n < 0) fail("%s decoded with negative length %ld", sn::name(type), v.n);
            if (v.n > 0 && (v.p < b || v.p + v.n > b + n)) fail("%s: returned view [%ld,+%ld) is outside the %d byte buffer", sn::name(type), (long)(v.p - b), v.n, n);
            if (v.n > 0) o.dst[i]->assign(v.p, v.p + v.n);
        }
}
// ---- what the bytes mean: FAIL = may not be decoded, OK = must be, EITHER = outside the specification
enum Verdict { FAIL_, OK_, EITHER_ };
Verdict meaning(const uint8_t* b, size_t n, int type, sn::Pkt& p) {
    if (n < 1) return FAIL_;
    size_t len = b[0], h = 1;
    if (b[0] == 1) { if (n < 3) return FAIL_; len = b[1] << 8 | b[2]; h = 3; }
    if (len > n || len < h + 1) return FAIL_;
    int t = b[h]; bool ack = type == sn::PUBREC || type == sn::PUBREL || type == sn::PUBCOMP;
    if (ack ? !(t == sn::PUBREC || t == sn::PUBREL || t == sn::PUBCOMP) : t != type) return FAIL_;
    Bytes body(b + h + 1, b + len); Verdict v = OK_;
    p.type = t;
    size_t k = body.size();
    auto g16 = [&](size_t i) { return body[i] << 8 | body[i + 1]; };
    auto fl = [&](uint8_t f) { p.dup = f >> 7; p.qos = (f >> 5) & 3; p.retain = (f >> 4) & 1; p.will = (f >> 3) & 1; p.clean = (f >> 2) & 1; p.tit = f & 3; };
    auto rest = [&](size_t i) { return Bytes(body.begin() + i, body.end()); };
#define MIN(m) if (k < (m)) return FAIL_
#define EXACT(m) MIN(m); if (k > (m)) v = EITHER_
    switch (t) {
    case sn::ADVERTISE: EXACT(3); p.gwId = body[0]; p.duration = g16(1); break;
    case sn::SEARCHGW: EXACT(1); p.radius = body[0]; break;
    case sn::GWINFO: MIN(1); p.gwId = body[0]; p.name = rest(1); break;
    case sn::CONNECT: MIN(4); fl(body[0]); if (body[1] != 1) v = EITHER_; p.duration = g16(2); p.name = rest(4); break;
    case sn::CONNACK: case sn::WILLTOPICRESP: case sn::WILLMSGRESP: EXACT(1); p.rc = body[0]; break;
    case sn::WILLTOPICREQ: case sn::WILLMSGREQ: case sn::PINGRESP: EXACT(0); break;
    case sn::WILLTOPIC: case sn::WILLTOPICUPD: if (k) { fl(body[0]); p.name = rest(1); } break;
    case sn::WILLMSG: case sn::WILLMSGUPD: p.data = body; break;
    case sn::REGISTER: MIN(4); p.topicId = g16(0); p.msgId = g16(2); p.name = rest(4); break;
    case sn::REGACK: case sn::PUBACK: EXACT(5); p.topicId = g16(0); p.msgId = g16(2); p.rc = body[4]; break;
    case sn::PUBLISH: MIN(5); fl(body[0]); p.topicId = g16(1); p.msgId = g16(3); if (p.tit == 3) v = EITHER_; if (p.tit >= 2) p.name = Bytes(body.begin() + 1, body.begin() + 3);
        if (p.tit == 0 && p.qos == 3) { if ((size_t)p.topicId > k - 5) return FAIL_; p.node = Bytes(body.begin() + 5, body.begin() + 5 + p.topicId); p.data = rest(5 + p.topicId); } else p.data = rest(5); break;
    case sn::PUBREC: case sn::PUBREL: case sn::PUBCOMP: case sn::UNSUBACK: EXACT(2); p.msgId = g16(0); break;
    case sn::SUBSCRIBE: case sn::UNSUBSCRIBE: MIN(3); fl(body[0]); p.msgId = g16(1);
        if (p.tit == 0) p.name = rest(3); else if (p.tit == 3) v = EITHER_; else { EXACT(5); if (p.tit == 1) p.topicId = g16(3); else p.name = Bytes(body.begin() + 3, body.begin() + 5); } break;
    case sn::SUBACK: EXACT(6); fl(body[0]); p.topicId = g16(1); p.msgId = g16(3); p.rc = body[5]; break;
    case sn::PINGREQ: p.name = body; break;
    case sn::DISCONNECT: if (k == 2) p.duration = g16(0); else if (k) v = EITHER_; break;
    }
    if (h == 3 && len < 256) v = v == FAIL_ ? FAIL_ : EITHER_; // the 3-octet form is meant for longer packets
    return v;
}
Str diff(const sn::Pkt& w, const sn::Pkt& g, Verdict v) {
    char b[200];
#define F(x) if (w.x != g.x) { snprintf(b, sizeof b, #x " is %d, should be %d", (int)g.x, (int)w.x); return b; }
#define V(x) if (w.x != g.x) { snprintf(b, sizeof b, #x " differs (%zu bytes, should be %zu)", g.x.size(), w.x.size()); return b; }
    switch (w.type) {
    case sn::ADVERTISE: F(gwId) F(duration) break;
    case sn::SEARCHGW: F(radius) break;
    case sn::GWINFO: F(gwId) V(name) break;
    case sn::CONNECT: F(clean) F(will) F(duration) V(name) break;
    case sn::CONNACK: case sn::WILLTOPICRESP: case sn::WILLMSGRESP: F(rc) break;
    case sn::WILLTOPIC: case sn::WILLTOPICUPD: F(qos) F(retain) V(name) break;
    case sn::WILLMSG: case sn::WILLMSGUPD: V(data) break;
    case sn::REGISTER: F(topicId) F(msgId) V(name) break;
    case sn::REGACK: case sn::PUBACK: F(topicId) F(msgId) F(rc) break;
    case sn::PUBLISH: F(dup) F(qos) F(retain) F(tit) F(msgId) F(topicId) V(data) V(name) V(node) break;
    case sn::PUBREC: case sn::PUBREL: case sn::PUBCOMP: case sn::UNSUBACK: F(type) F(msgId) break;
    case sn::SUBSCRIBE: F(dup) F(qos) F(msgId) F(tit) if (w.tit == 1) { F(topicId) } else if (w.tit != 3) { V(name) } break;
    case sn::UNSUBSCRIBE: F(msgId) F(tit) if (w.tit == 1) { F(topicId) } else if (w.tit != 3) { V(name) } break;
    case sn::SUBACK: F(qos) F(topicId) F(msgId) F(rc) break;
    case sn::PINGREQ: V(name) break;
    case sn::DISCONNECT: if (v == OK_) { F(duration) } break;
    }
    return "";
}
int pickTotal(Rng& r) { switch (r.below(8)) { case 0: case 1: return r.range(249, 262); case 2: return r.range(65526, 65535); case 3: return r.range(2, 65535); case 4: return r.range(500, 1100); default: return r.range(2, 60); } }
uint64_t sig(const sn::Pkt& p, int total) { uint64_t h = fnv(&p.type, sizeof p.type); int q[6] = {p.qos, p.retain, p.dup, p.tit, total < 300 ? total : total > 65500 ? total : total / 64, p.clean * 2 + p.will}; return fnv(q, sizeof q, h); }
}

KITPROP(serialize, "serialise valid fields, compare with the reference encoding, decode again", 3000) {
    int type, total;
    if (idx < 3000) { type = TYPES[idx % NT]; int k = (int)(idx / NT); total = k < 30 ? 244 + k : k < 50 ? 65536 - (k - 30) : k < 90 ? k - 48 : 1000 + k; if (total > 65535) total = 65535; }
    else { type = TYPES[r.below(NT)]; total = pickTotal(r); }
    sn::Pkt p = gen(r, type, total); Bytes w = want(p);
    note("%s", [&] { sn::Pkt t = p; t.ok = true; return sn::str(t); }().c_str());
    if (w.size() > 65535) return;
    size_t room = w.size() + (emptyWill(p) ? 1 : 0) + (r.chance(50) ? 0 : r.below(40));
    Exact e(room); memset(e.p, 0xEE, room);
    int rc = serialize(p, e.p, (int)room, r);
    evals(); distinct(sig(p, (int)w.size())); count(sn::name(type));
    if (emptyWill(p) && rc == 3) { w = {3, (uint8_t)type, sn::flags(p)}; } // flags without a topic
    if (rc != (int)w.size()) fail("serialise %s returned %d, encoding has %zu octets", sn::name(type), rc, w.size());
    if (memcmp(e.p, w.data(), w.size())) { size_t i = 0; while (e.p[i] == w[i]) i++; fail("serialise %s: octet %zu is 0x%02x, should be 0x%02x", sn::name(type), i, e.p[i], w[i]); }
    Exact d(w.size()); memcpy(d.p, w.data(), w.size());
    Out o; deserialize(o, type, d.p, (int)w.size(), r.chance(50) ? 0x00 : 0xA5);
    if (o.rc != 1) fail("deserialise %s of its own %zu octet encoding returned %d", sn::name(type), w.size(), o.rc);
    sn::Pkt ref; Verdict v = meaning(w.data(), w.size(), type, ref);
    Str m = diff(ref, o.p, v); if (!m.empty()) fail("deserialise %s: %s", sn::name(type), m.c_str());
    if (memcmp(d.p, w.data(), w.size())) fail("deserialise %s modified its input", sn::name(type));
    if (idx % 997 == 0) sample("serialise+deserialise " + [&] { sn::Pkt t = p; t.ok = true; return sn::str(t); }() + " -> " + std::to_string(rc) + " octets");
}
KITPROP(bounds, "serialise into every buffer length", 3000) {
    int type, total;
    if (idx < 3000) { type = TYPES[idx % NT]; int k = (int)(idx / NT); total = k < 30 ? 244 + k : k < 90 ? k - 28 : 1000 + k; }
    else { type = TYPES[r.below(NT)]; total = r.chance(20) ? pickTotal(r) : r.range(2, 300); }
    sn::Pkt p = gen(r, type, total); Bytes w = want(p); int n = (int)w.size(); if (emptyWill(p)) n = 3;
    note("%s", [&] { sn::Pkt t = p; t.ok = true; return sn::str(t); }().c_str());
    if (n > 65535) return;
    std::vector<int> lens;
    if (n <= 60) for (int i = 0; i <= n + 3; i++) lens.push_back(i);
    else { for (int i = 0; i < 6; i++) lens.push_back(i); for (int i = n - 6; i <= n + 3; i++) lens.push_back(i); for (int i = 0; i < 12; i++) lens.push_back(r.range(0, n)); if (n > 256) for (int i = 250; i < 259; i++) lens.push_back(i); }
    for (int l : lens) {
        Exact e(l); if (l) memset(e.p, 0xEE, l);
        int rc = serialize(p, e.p, l, r);
        evals(); int q[2] = {l < 300 ? l : l / 32, n < 300 ? n : n / 32}; distinct(fnv(q, sizeof q, sig(p, n)));
        if (l < n && rc > 0 && !(emptyWill(p) && l == 2 && rc == 2)) fail("serialise %s (%d octets) into %d octets returned %d instead of an error", sn::name(type), n, l, rc);
        if (l >= n && rc != n && !(emptyWill(p) && rc == 2)) fail("serialise %s (%d octets) into %d octets returned %d", sn::name(type), n, l, rc);
    }
    count(sn::name(type));
    if (idx % 997 == 0) sample(Str("serialise ") + sn::name(type) + " of " + std::to_string(n) + " octets into " + std::to_string(lens.size()) + " buffer lengths");
}
static void tryDecode(int type, const Bytes& b, size_t bufn, Rng& r) {
    // the buffer is bufn octets long and starts with b (bufn <= b.size())
    Exact e(bufn); if (bufn) memcpy(e.p, b.data(), bufn);
    sn::Pkt ref; Verdict v = meaning(e.p, bufn, type, ref);
    Out o; deserialize(o, type, e.p, (int)bufn, r.chance(50) ? 0x00 : 0xA5);
    evals(); int q[4] = {type, (int)v, o.rc, (int)(bufn < 40 ? bufn : 40 + bufn / 64)}; uint64_t h = fnv(q, sizeof q); h = fnv(e.p, bufn < 8 ? bufn : 8, h); distinct(h);
    if (bufn && memcmp(e.p, b.data(), bufn)) fail("deserialise %s modified its input", sn::name(type));
    auto in = [&] { return sn::show(Bytes(b.begin(), b.begin() + bufn), 40); };
    if (v == FAIL_ && o.rc == 1) fail("deserialise %s accepted %zu octets that are not a complete packet: %s", sn::name(type), bufn, in().c_str());
    if (v == OK_ && o.rc != 1) fail("deserialise %s rejected (%d) a well-formed packet: %s", sn::name(type), o.rc, in().c_str());
    if (o.rc == 1) { Str m = diff(ref, o.p, v); if (!m.empty()) fail("deserialise %s: %s for %s", sn::name(type), m.c_str(), in().c_str()); count("decoded"); } else count("rejected");
}
KITPROP(decode, "deserialise every short string, mutated, truncated and random packets", 65536) {
    if (idx < 65536) { // exhaustive over the first two octets, all deserialisers, lengths 0..4
        Bytes b = {(uint8_t)(idx >> 8), (uint8_t)idx, (uint8_t)r.next(), (uint8_t)r.below(32), (uint8_t)r.next(), (uint8_t)r.next()};
        note("first octets %02x %02x %02x %02x", b[0], b[1], b[2], b[3]);
        for (int t : TYPES) for (size_t n = 0; n <= b.size(); n++) tryDecode(t, b, n, r);
        if (b[0] == 1) for (int t : TYPES) { Bytes c = b; c[3] = (uint8_t)t; for (size_t n = 3; n <= c.size(); n++) tryDecode(t, c, n, r); }
        return;
    }
    int type = TYPES[r.below(NT)];
    sn::Pkt p = gen(r, type, r.chance(15) ? pickTotal(r) : r.range(2, 40));
    Bytes b = sn::enc(p); int mode = r.below(9); count(("mode" + std::to_string(mode)).c_str());
    switch (mode) {
    case 0: break; // as is, every prefix
    case 1: b[0] = (uint8_t)r.next(); break; // length lies
    case 2: if (b[0] == 1) { b[1] = (uint8_t)r.next(); b[2] = (uint8_t)r.next(); } else b[0] = (uint8_t)(b[0] + r.range(-6, 6)); break;
    case 3: for (int i = r.range(1, 4); i > 0; i--) b[r.below((uint32_t)b.size())] ^= (uint8_t)(1 << r.below(8)); break;
    case 4: { Bytes body(b.begin() + (b[0] == 1 ? 3 : 1), b.end()); size_t n = body.size() + 3; int lie = r.chance(50) ? 0 : r.range(-5, 5); b = {1, (uint8_t)((n + lie) >> 8), (uint8_t)(n + lie)}; sn::cat(b, body); break; } // 3-octet form
    case 5: { size_t cut = r.below((uint32_t)b.size()); b.resize(cut); if (cut && b[0] != 1 && r.chance(60)) b[0] = (uint8_t)cut; break; } // truncated, length adjusted
    case 6: for (int i = r.below(20); i >= 0; i--) b.push_back((uint8_t)r.next()); break; // more in the buffer than the packet
    case 7: if (type == sn::PUBLISH && b[0] != 1) { b[2] = (uint8_t)((b[2] & ~0x63) | 0x60); b[3] = r.chance(50) ? 0 : (uint8_t)r.next(); b[4] = (uint8_t)r.below(60); } else for (auto& x : b) if (r.chance(10)) x = (uint8_t)r.next(); break;
    case 8: { b.resize(r.below(40)); for (auto& x : b) x = (uint8_t)r.next(); if (b.size() > 1 && r.chance(80)) { b[0] = (uint8_t)(r.chance(60) ? b.size() : r.below(50)); b[1] = (uint8_t)type; } break; }
    }
    note("type %s mode %d bytes %s", sn::name(type), mode, sn::show(b, 80).c_str());
    size_t n = b.size();
    if (n <= 48) for (size_t k = 0; k <= n; k++) tryDecode(type, b, k, r);
    else { tryDecode(type, b, n, r); for (int i = 0; i < 12; i++) tryDecode(type, b, i < 4 ? n - 1 - i : r.below((uint32_t)n), r); }
    if (r.chance(30)) tryDecode(TYPES[r.below(NT)], b, n, r);
    if (idx % 4999 == 0) sample(Str("deserialise ") + sn::name(type) + " from " + sn::show(b, 40));
}
// ---- packet readers
static Bytes feed; static int feedRc; static int asked; static unsigned char* askedBuf;
static int getfn(unsigned char* b, int n) { asked = n; askedBuf = b; if (feedRc < 0) return feedRc; int k = (int)feed.size() < n ? (int)feed.size() : n; if (k > 0) memcpy(b, feed.data(), k); return k; }
KITPROP(readers, "MQTTSNPacket_read / read_nb on every kind of delivery", 65536) {
    int total = r.chance(70) ? r.range(2, 40) : r.range(240, 300);
    if (idx < 65536) { feed = {(uint8_t)(idx >> 8), (uint8_t)idx, (uint8_t)r.below(8), (uint8_t)r.next(), (uint8_t)r.next()}; feed.resize(idx % 6 == 5 ? 5 : idx % 5); if (r.chance(40) && feed.size() > 0) feed[0] = (uint8_t)feed.size(); }
    else {
        feed = sn::enc(gen(r, TYPES[r.below(NT)], total));
        switch (r.below(6)) { case 0: break; case 1: feed[0] = (uint8_t)(feed[0] + r.range(-3, 3)); break; case 2: feed.resize(r.below((uint32_t)feed.size() + 1)); break; case 3: feed.push_back((uint8_t)r.next()); break; case 4: { int n = r.below(6); feed.assign(n, 0); for (auto& x : feed) x = (uint8_t)r.below(6); break; } case 5: { Bytes b(feed.begin() + (feed[0] == 1 ? 3 : 1), feed.end()); int n = (int)b.size() + 3 + (r.chance(30) ? r.range(-2, 2) : 0); feed = {1, (uint8_t)(n >> 8), (uint8_t)n}; sn::cat(feed, b); } }
    }
    feedRc = r.chance(4) ? -r.range(1, 5) : 0;
    int bl = r.chance(60) ? (int)feed.size() : r.chance(50) ? (int)feed.size() + (int)r.below(20) : (int)r.below((uint32_t)feed.size() + 1);
    note("deliver %s into a buffer of %d", sn::show(feed, 60).c_str(), bl);
    auto judge = [&](const char* fn, const Bytes& d, int rc) { // d: what was delivered
        size_t n = d.size(), len = n ? d[0] : 0, h = 1; bool ok = n >= 2;
        if (ok && d[0] == 1) { if (n < 3) ok = false; else { len = d[1] << 8 | d[2]; h = 3; } }
        if (ok && (len != n || n < h + 1)) ok = false;
        evals(); int q[4] = {(int)n, n ? d[0] : 0, ok, rc}; distinct(fnv(q, sizeof q));
        if (ok && rc != d[h]) fail("%s returned %d for a complete packet of type %d", fn, rc, d[h]);
        if (!ok && rc >= 0) fail("%s returned %d for a delivery that is not exactly one packet: %s", fn, rc, sn::show(d, 40).c_str());
        count(ok ? "accepted" : "refused");
    };
    {
        Exact e(bl); if (bl) memset(e.p, 0xEE, bl); asked = -1;
        int rc = MQTTSNPacket_read(e.p, bl, getfn);
        if (asked > bl || (asked >= 0 && (askedBuf < e.p || askedBuf + asked > e.p + bl))) fail("MQTTSNPacket_read offered the transport %d octets, the buffer has %d", asked, bl);
        Bytes d; if (feedRc == 0) d.assign(feed.begin(), feed.begin() + ((int)feed.size() < bl ? (int)feed.size() : bl));
        judge("MQTTSNPacket_read", d, rc);
        if (rc >= 0 && memcmp(e.p, d.data(), d.size())) fail("MQTTSNPacket_read changed the packet");
    }
    {
        size_t n = feed.size(); Exact e(n); if (n) memcpy(e.p, feed.data(), n);
        int rc = MQTTSNPacket_read_nb(e.p, (int)n);
        judge("MQTTSNPacket_read_nb", feed, rc);
    }
    if (idx % 9973 == 0) sample("delivery " + sn::show(feed, 40));
}
