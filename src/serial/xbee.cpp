// C28: the XBee sensor network against an independent reading of the API frame format.
#include "port.h"
#include <string.h>
#include <set>
#include "MQTTSNGWDefines.h"
#include "SensorNetwork.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
namespace {
typedef std::string Str;
struct Pkt { Bytes a64, a16, body; size_t pos, end; bool must; };
Str hex(const Bytes& b, size_t max = 40) { Str s; char t[4]; for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02X", b[i]); s += t; } if (b.size() > max) s += ".."; return s; }
int mode;
void put(Bytes& o, uint8_t b) { if (mode == 2 && (b == 0x7e || b == 0x7d || b == 0x11 || b == 0x13)) { o.push_back(0x7d); o.push_back(b ^ 0x20); } else o.push_back(b); }
Bytes frame(const Bytes& d, int badSum = 0, int len = -1) { Bytes o; o.push_back(0x7e); if (len < 0) len = (int)d.size(); put(o, len >> 8); put(o, len & 255); uint8_t c = 0; for (uint8_t b : d) { put(o, b); c += b; } put(o, (uint8_t)(0xff - c + badSum)); return o; }
uint8_t rb(Rng& r) { return r.chance(35) ? (uint8_t)"\x7e\x7d\x11\x13\x00\xff\x5e\x5d\x31\x33\x20"[r.below(11)] : (uint8_t)r.below(256); }
Bytes rbytes(Rng& r, int n) { Bytes b; for (int i = 0; i < n; i++) b.push_back(rb(r)); return b; }
int rlen(Rng& r) { switch (r.below(5)) { case 0: return r.range(1, 4); case 1: return r.range(1, 100); case 2: return r.range(100, 130); case 3: return r.range(230, 243); default: return r.range(1, 243); } }
Bytes response(const Bytes& a64, const Bytes& a16, uint8_t opt, const Bytes& body) { Bytes d; d.push_back(0x90); d.insert(d.end(), a64.begin(), a64.end()); d.insert(d.end(), a16.begin(), a16.end()); d.push_back(opt); d.insert(d.end(), body.begin(), body.end()); return d; }
Bytes status(uint8_t id, uint8_t code, Rng& r) { Bytes d; d.push_back(0x8b); d.push_back(id); d.push_back(rb(r)); d.push_back(rb(r)); d.push_back(rb(r)); d.push_back(code); d.push_back(rb(r)); return d; }
// every reading of the received bytes as an API frame holding a packet, from any START byte, without a pause inside
std::vector<Pkt> readings(const std::vector<int>& v) {
    std::vector<Pkt> out;
    for (size_t s = 0; s < v.size(); s++) {
        if (v[s] != 0x7e) continue;
        size_t i = s + 1; bool ok = true;
        auto next = [&]() -> uint8_t { if (i >= v.size() || v[i] < 0) { ok = false; return 0; } uint8_t b = (uint8_t)v[i++]; if (mode == 2 && b == 0x7d) { if (i >= v.size() || v[i] < 0) { ok = false; return 0; } b = (uint8_t)v[i++] ^ 0x20; } return b; };
        int len = next() << 8; len |= next(); Bytes d; uint8_t c = 0; for (int k = 0; k < len && ok; k++) { d.push_back(next()); c += d.back(); }
        uint8_t sum = next(); if (!ok || (uint8_t)(0xff - c) != sum || len <= 12 || d[0] != 0x90) continue;
        Pkt p; p.a64.assign(d.begin() + 1, d.begin() + 9); p.a16.assign(d.begin() + 9, d.begin() + 11); p.body.assign(d.begin() + 12, d.end()); p.pos = s; p.end = i; p.must = false; out.push_back(p);
    }
    return out;
}
struct Out { Bytes a64, a16, body; uint8_t id; };
Out decode(const Bytes& b) {
    Out o; Bytes d; if (b.empty() || b[0] != 0x7e) fail("a transmitted frame does not start with 7E: %s", hex(b).c_str());
    for (size_t i = 1; i < b.size(); i++) {
        if (mode == 2) {
            if (b[i] == 0x7e || b[i] == 0x11 || b[i] == 0x13) fail("unescaped octet %02X in a transmitted frame (API mode 2): %s", b[i], hex(b).c_str());
            if (b[i] == 0x7d) { if (++i >= b.size()) fail("a transmitted frame ends in an escape"); d.push_back(b[i] ^ 0x20); continue; }
        }
        d.push_back(b[i]);
    }
    if (d.size() < 3 + 14) fail("transmitted frame too short: %s", hex(b).c_str());
    size_t len = d[0] * 256 + d[1]; if (len != d.size() - 3) fail("a transmitted frame says length %zu and has %zu octets: %s", len, d.size() - 3, hex(b).c_str());
    uint8_t c = 0; for (size_t i = 2; i < d.size(); i++) c += d[i]; if (c != 0xff) fail("wrong checksum in a transmitted frame: %s", hex(b).c_str());
    if (d[2] != 0x10) fail("transmitted frame of type %02X", d[2]);
    o.id = d[3]; o.a64.assign(d.begin() + 4, d.begin() + 12); o.a16.assign(d.begin() + 12, d.begin() + 14); o.body.assign(d.begin() + 16, d.end() - 1); return o;
}
struct Net {
    SensorNetwork sn; Rng& r; std::vector<Pkt> got; size_t bufLen; int lastId = -1, stuck = 0;
    Net(Rng& rr) : r(rr), bufLen(1024) { port::reset(); port::rng = &r; port::flushMode = (int)r.below(3); port::burst = r.chance(50) ? 1 : r.range(1, 300); sn.setApiMode((uint8_t)mode); char dev[] = "/dev/verif0"; if (sn.open(dev, 9600) < 0) fail("the port cannot be opened"); }
    void readOnce() {
        size_t before = port::pending(); uint8_t* buf = new uint8_t[bufLen ? bufLen : 1]; int n = sn.read(buf, (uint16_t)bufLen);
        if (n > 0) { if ((size_t)n > bufLen) fail("read() with a buffer of %zu octets returned %d", bufLen, n); Pkt p; char a[40] = {0}; sn.getSenderAddress()->sprint(a); p.body.assign(buf, buf + n); for (int i = 0; i < 8; i++) { unsigned x = 0; sscanf(a + 2 * i, "%2x", &x); p.a64.push_back((uint8_t)x); } note("read: %d octets from %s: %s", n, a, hex(p.body).c_str()); got.push_back(p); count("packets_read"); }
        delete[] buf; stuck = n <= 0 && port::pending() == before ? stuck + 1 : 0; if (stuck > 3 && !port::idle()) fail("read() made no progress"); 
    }
    void pump() { while (!port::idle()) readOnce(); readOnce(); }
    void send(SensorNetAddress* to, const Bytes& a64, const Bytes& a16);
};
void Net::send(SensorNetAddress* to, const Bytes& a64, const Bytes& a16) {
    Bytes body = rbytes(r, r.chance(90) ? r.range(1, 241) : r.chance(50) ? r.range(235, 262) : r.range(242, 1000));
    int kind = (int)r.below(11); bool late = false; int id = -1; uint8_t nack = (uint8_t)r.range(1, 255); Bytes inBody; Pkt in; size_t g0 = got.size(); bool expectIn = false;
    port::take(0);
    port::onWait = [&](bool first) -> bool {
        if (first) {
            Out o = decode(port::take(0)); kit::evals(); id = o.id;
            if (o.body != body) fail("payload %s was transmitted as %s", hex(body).c_str(), hex(o.body).c_str());
            if (o.a64 != a64 || o.a16 != a16) fail("a packet for %s/%s was transmitted to %s/%s", hex(a64).c_str(), hex(a16).c_str(), hex(o.a64).c_str(), hex(o.a16).c_str());
            if (!id) fail("frame id 0 asks the modem for no status"); if (id == lastId) fail("frame id %d used for two frames running", id); lastId = id;
            uint8_t other = (uint8_t)(id + r.range(1, 255)); auto st = [&](uint8_t i, uint8_t c) { port::rx(0, frame(status(i, c, r))); port::gap(); };
            switch (kind) {
            case 1: st((uint8_t)id, nack); break; case 2: break; case 3: st(other, 0); break; case 4: st(other, 0); st((uint8_t)id, 0); break; case 5: late = true; break;
            case 6: in.a64 = rbytes(r, 8); in.a16 = rbytes(r, 2); in.body = rbytes(r, rlen(r)); port::rx(0, frame(response(in.a64, in.a16, 1, in.body))); expectIn = true; st((uint8_t)id, 0); break;
            case 7: st(other, nack); st((uint8_t)id, 0); break; case 8: port::rx(0, frame(status((uint8_t)id, 0, r), r.range(1, 255))); port::gap(); break;
            case 9: { Bytes s = status((uint8_t)id, 0, r); s.resize(r.range(1, 5)); port::rx(0, frame(s)); port::gap(); break; }
            default: st((uint8_t)id, 0); }
            return true;
        }
        if (port::idle()) return false;
        readOnce(); return true;
    };
    int rc = to ? sn.unicast(body.data(), (uint16_t)body.size(), to) : sn.broadcast(body.data(), (uint16_t)body.size());
    port::onWait = nullptr; note("send of %zu octets, kind %d, frame id %d: %d", body.size(), kind, id, rc);
    if (id < 0) { if (body.size() <= 241 || rc >= 0 || !port::take(0).empty()) fail("a packet of %zu octets was not transmitted, send returned %d", body.size(), rc); count("refused_too_long"); return; }
    bool ok = kind == 0 || kind == 4 || kind == 6 || kind == 7 || kind == 10; kit::evals();
    if (ok ? rc != (int)body.size() : rc >= 0) fail("send of %zu octets returned %d; the modem %s", body.size(), rc, ok ? "reported delivery" : kind == 1 ? "reported a failure" : "reported nothing about this frame");
    if (late && r.chance(80)) { port::rx(0, frame(status((uint8_t)id, r.chance(50) ? 0 : nack, r))); port::gap(); }
    pump(); port::take(0);
    if (expectIn) { if (got.size() != g0 + 1 || got.back().a64 != in.a64 || got.back().body != in.body) fail("a packet received while a send waits for its status was not read"); }
    else if (got.size() != g0) fail("a packet was read while none was received");
    count("frames_sent"); count(ok ? "sends_confirmed" : "sends_failed"); kit::distinct(kit::fnv(body.data(), body.size(), (uint64_t)kind * 31 + mode));
}
}
KITPROP(xbee, "scripts of received bytes (frames, other frames, noise, damage, pauses) and sends with every kind of status", 0) {
    mode = r.chance(75) ? 2 : 1; Net net(r); net.bufLen = r.chance(70) ? 1024 : (size_t)r.range(1, 256);
    std::vector<int> v; std::vector<size_t> must; bool dirty = false; int uniq = 0;
    auto add = [&](const Bytes& b) { for (uint8_t c : b) v.push_back(c); }; auto gap = [&] { v.push_back(port::GAP); dirty = false; };
    bool wild = r.chance(15);
    if (wild) { for (int i = r.range(1, 700); i > 0; i--) { uint8_t b = rb(r); if (r.chance(12)) { v.push_back(0x7e); v.push_back(r.chance(90) ? 0 : r.below(256)); v.push_back(r.chance(60) ? r.range(0, 20) : r.below(256)); if (r.chance(60)) v.push_back(r.chance(70) ? 0x90 : 0x8b); } else if (r.chance(3)) v.push_back(port::GAP); else v.push_back(b); } count("arbitrary_streams"); }
    else for (int i = r.range(1, 12); i > 0; i--) {
        Bytes a16; a16.push_back((uint8_t)(uniq >> 8)); a16.push_back((uint8_t)++uniq); Bytes a64 = rbytes(r, 8); a64[r.below(8)] = (uint8_t)uniq; Bytes body = rbytes(r, rlen(r)); if (body.size() > 1) body[r.below(body.size())] = (uint8_t)uniq;
        Bytes d = response(a64, a16, (uint8_t)r.below(256), body);
        switch (r.below(12)) {
        case 0: { Bytes o; static const uint8_t t[] = {0x8a, 0x88, 0x95, 0x97, 0x91, 0x8b, 0x00}; o.push_back(t[r.below(7)]); Bytes x = rbytes(r, o[0] == 0x8b ? r.range(5, 9) : r.range(1, 60)); o.insert(o.end(), x.begin(), x.end()); add(frame(o)); count("other_frames"); break; }
        case 1: { Bytes x = rbytes(r, r.range(1, 30)); for (auto& b : x) if (b == 0x7e) b = 0x7d; add(x); count("noise"); break; }
        case 2: add(frame(d, r.range(1, 255))); dirty = true; count("bad_checksums"); break;
        case 3: { Bytes f = frame(d); f.resize(r.range(1, (int)f.size() - 1)); add(f); dirty = true; if (r.chance(80)) gap(); count("cut_off"); break; }
        case 4: { Bytes f = frame(d); size_t k = r.range(1, (int)f.size() - 1); for (size_t j = 0; j < f.size(); j++) { if (j == k) v.push_back(port::GAP); v.push_back(f[j]); } dirty = true; count("pause_inside"); break; }
        case 5: { Bytes o = response(a64, a16, 1, Bytes()); o.resize(r.range(0, 12)); add(frame(o)); dirty = true; count("short_frames"); break; }
        case 6: { int n = r.chance(50) ? r.range(244, 260) : r.range(244, 5000); add(frame(response(a64, a16, 1, rbytes(r, n)))); dirty = true; count("long_frames"); break; }
        case 7: { Bytes f = frame(d); f[r.below(f.size())] ^= (uint8_t)(1 << r.below(8)); add(f); dirty = true; count("flipped_bits"); break; }
        default: if (!dirty && body.size() <= net.bufLen) must.push_back(v.size()); add(frame(d)); count("good_frames"); }
        if (r.chance(40)) gap();
    }
    for (int x : v) if (x < 0) port::gap(); else port::rx(0, Bytes(1, (uint8_t)x));
    net.pump();
    std::vector<Pkt> cand = readings(v); size_t k = 0, m = 0, end = 0; kit::evals(net.got.size() + must.size());
    auto skipped = [&](size_t upto) { while (m < must.size() && must[m] < upto) fail("a well-formed packet (octet %zu of the stream) was not read; packets read: %zu", must[m], net.got.size()); };
    for (auto& g : net.got) {
        for (;; k++) { if (k >= cand.size()) fail("read() returned a packet that was not received: from %s, %s", hex(g.a64).c_str(), hex(g.body).c_str()); if (cand[k].pos >= end && cand[k].a64 == g.a64 && cand[k].body == g.body) break; }
        skipped(cand[k].pos); if (m < must.size() && must[m] == cand[k].pos) m++; end = cand[k].end; k++;
    }
    skipped(v.size() + 1);
    kit::distinct(kit::fnv(v.data(), v.size() * sizeof v[0], mode)); port::gap(); net.pump(); port::reset(); net.got.clear(); net.bufLen = 1024; count("streams");
    // sends, also to the sender of a packet
    for (int i = r.chance(97) ? r.range(0, 8) : 300; i > 0; i--) {
        int w = (int)r.below(4); Bytes a64 = rbytes(r, 8), a16 = rbytes(r, 2);
        if (w == 0) { Bytes b; for (int j = 0; j < 8; j++) b.push_back(j < 6 ? 0 : 0xff); Bytes s; s.push_back(0xff); s.push_back(0xfe); net.send(nullptr, b, s); }
        else if (w == 1) { Str h = hex(a64); if (r.chance(50)) for (auto& c : h) c = (char)tolower(c); if (r.chance(30)) h += ",forwarder"; SensorNetAddress a; if (a.setAddress(&h) != 0) fail("address %s is refused", h.c_str()); Bytes s; s.push_back(0xff); s.push_back(0xfe); net.send(&a, a64, s); }
        else { SensorNetAddress a; if (w == 2) { port::rx(0, frame(response(a64, a16, 1, rbytes(r, rlen(r))))); net.pump(); if (net.got.empty() || net.got.back().a64 != a64) fail("a packet was not read"); a = *net.sn.getSenderAddress(); net.got.clear(); } else a.setAddress(a64.data(), a16.data()); net.send(&a, a64, a16); }
    }
    kit::sample(Str("mode ") + std::to_string(mode) + ", " + std::to_string(v.size()) + " octets received, " + std::to_string(must.size()) + " packets that must be read, " + std::to_string(cand.size()) + " readings");
}
KITPROP(xbeeaddr, "addresses of received packets against addresses written in clients.conf", 0) {
    mode = 2; Net net(r); Bytes a64 = rbytes(r, 8), a16 = rbytes(r, 2); port::rx(0, frame(response(a64, a16, 1, rbytes(r, 5)))); net.pump(); SensorNetAddress in; in = *net.sn.getSenderAddress();
    Str h = hex(a64); if (r.chance(50)) for (auto& c : h) c = (char)tolower(c); Bytes o64 = a64; o64[r.below(8)] ^= (uint8_t)(1 << r.below(8)); Str g = hex(o64); SensorNetAddress same, other; kit::evals(5);
    if (same.setAddress(&h) || other.setAddress(&g)) fail("an address of 16 hexadecimal digits is refused");
    if (!in.isMatch(&same) || !same.isMatch(&in)) fail("a packet of %s is not recognised as one of the listed address %s", hex(a64).c_str(), h.c_str());
    if (in.isMatch(&other) || other.isMatch(&in) || same.isMatch(&other)) fail("addresses %s and %s are taken for the same", h.c_str(), g.c_str());
    Str bad = h; switch (r.below(3)) { case 0: bad.resize(r.below(16)); break; case 1: bad[r.below(16)] = "gG-xZ/:@`"[r.below(9)]; break; default: bad += "0"; } SensorNetAddress x; if (x.setAddress(&bad) == 0) fail("\"%s\" is accepted as an address", bad.c_str());
    kit::distinct(kit::fnv(a64.data(), 8)); count("addresses");
}
