// C29: the LoRaLink sensor network against an independent reading of its serial API.
#include "port.h"
#include <string.h>
#include "MQTTSNGWDefines.h"
#include "SensorNetwork.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
namespace {
typedef std::string Str;
struct Pkt { int src; Bytes body; size_t pos, end; int port; };
Str hex(const Bytes& b, size_t max = 40) { Str s; char t[4]; for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02X", b[i]); s += t; } if (b.size() > max) s += ".."; return s; }
void put(Bytes& o, uint8_t b) { if (b == 0x7e || b == 0x7d || b == 0x11 || b == 0x13) { o.push_back(0x7d); o.push_back(b ^ 0x20); } else o.push_back(b); }
Bytes frame(const Bytes& d, int badSum = 0, int len = -1) { Bytes o; o.push_back(0x7e); if (len < 0) len = (int)d.size() + 1; put(o, len >> 8); put(o, len & 255); uint8_t c = 0; for (uint8_t b : d) { put(o, b); c += b; } put(o, (uint8_t)(0xff - c + badSum)); return o; }
uint8_t rb(Rng& r) { return r.chance(35) ? (uint8_t)"\x7e\x7d\x11\x13\x00\xff\x5e\x5d\x31\x33\x20\x40\x80"[r.below(13)] : (uint8_t)r.below(256); }
Bytes rbytes(Rng& r, int n) { Bytes b; for (int i = 0; i < n; i++) b.push_back(rb(r)); return b; }
int rlen(Rng& r) { switch (r.below(5)) { case 0: return r.range(1, 4); case 1: return r.range(1, 100); case 2: return r.range(240, 256); default: return r.range(1, 256); } }
Bytes data(uint8_t src, uint8_t type, const Bytes& body, Rng& r) { Bytes d = rbytes(r, 6); d[0] = src; d[5] = type; d.insert(d.end(), body.begin(), body.end()); return d; }
std::vector<Pkt> readings(const std::vector<int>& v, int port) { // pauses do not end a frame
    std::vector<Pkt> out;
    for (size_t s = 0; s < v.size(); s++) {
        if (v[s] != 0x7e) continue;
        size_t i = s + 1; bool ok = true;
        auto next = [&]() -> uint8_t { auto raw = [&]() -> int { while (i < v.size() && v[i] < 0) i++; if (i >= v.size() || v[i] == 0x7e) { ok = false; return 0; } return v[i++]; }; int b = raw(); if (b == 0x7d) b = raw() ^ 0x20; return (uint8_t)b; };
        int len = next() << 8; len |= next(); Bytes d; uint8_t c = 0; for (int k = 0; k < len - 1 && ok; k++) { d.push_back(next()); c += d.back(); }
        uint8_t sum = next(); if (!ok || (uint8_t)(0xff - c) != sum || len <= 7 || d[5] != 0x40) continue;
        Pkt p; p.src = d[0]; p.body.assign(d.begin() + 6, d.end()); p.pos = s; p.end = i; p.port = port; out.push_back(p);
    }
    return out;
}
struct Out { int dest; Bytes body; };
Out decode(const Bytes& b) {
    Out o; Bytes d; if (b.empty() || b[0] != 0x7e) fail("a transmitted frame does not start with 7E: %s", hex(b).c_str());
    for (size_t i = 1; i < b.size(); i++) {
        if (b[i] == 0x7e || b[i] == 0x11 || b[i] == 0x13) fail("unescaped octet %02X in a transmitted frame: %s", b[i], hex(b).c_str());
        if (b[i] == 0x7d) { if (++i >= b.size()) fail("a transmitted frame ends in an escape"); d.push_back(b[i] ^ 0x20); } else d.push_back(b[i]);
    }
    if (d.size() < 5) fail("transmitted frame too short: %s", hex(b).c_str());
    size_t len = d[0] * 256 + d[1]; if (len != d.size() - 2) fail("a transmitted frame says length %zu and has %zu octets: %s", len, d.size() - 2, hex(b).c_str());
    uint8_t c = 0; for (size_t i = 2; i < d.size(); i++) c += d[i]; if (c != 0xff) fail("wrong checksum in a transmitted frame: %s", hex(b).c_str());
    if (d[3] != 0x40) fail("transmitted payload type %02X", d[3]);
    o.dest = d[2]; o.body.assign(d.begin() + 4, d.end() - 1); return o;
}
enum { RX = 0, TX = 1 };
struct Net {
    SensorNetwork sn; Rng& r; std::vector<Pkt> got; size_t bufLen; int stuck = 0;
    Net(Rng& rr) : r(rr), bufLen(1024) { port::reset(); port::rng = &r; port::flushMode = (int)r.below(3); port::burst = r.chance(50) ? 1 : r.range(1, 300); char rx[] = "/dev/verif0", tx[] = "/dev/verif1"; if (sn.open(LORALINK_MODEM_RX, rx, 115200) < 0 || sn.open(LORALINK_MODEM_TX, tx, 115200) < 0) fail("the ports cannot be opened"); }
    void readOnce() {
        size_t before = port::pending(); uint8_t* buf = new uint8_t[bufLen ? bufLen : 1]; int n = sn.read(buf, (uint16_t)bufLen);
        if (n > 0) { if ((size_t)n > bufLen) fail("read() with a buffer of %zu octets returned %d", bufLen, n); Pkt p; char a[40] = {0}; sn.getSenderAddress()->sprint(a); p.src = atoi(a); p.body.assign(buf, buf + n); note("read: %d octets from %d: %s", n, p.src, hex(p.body).c_str()); got.push_back(p); count("packets_read"); }
        delete[] buf; stuck = n <= 0 && port::pending() == before ? stuck + 1 : 0; if (stuck > 3 && !port::idle()) fail("read() made no progress");
    }
    void pump() { while (!port::idle()) readOnce(); readOnce(); }
    void send(SensorNetAddress* to, int dest);
};
void Net::send(SensorNetAddress* to, int dest) {
    Bytes body = rbytes(r, r.chance(90) ? r.range(1, 256) : r.range(200, 1000)); int kind = (int)r.below(9); bool late = false, seen = false; Pkt in; in.src = -1; size_t g0 = got.size(); int rp = (int)r.below(2); port::take(RX); port::take(TX);
    port::onWait = [&](bool first) -> bool {
        if (first) {
            seen = true; if (!port::take(RX).empty()) fail("octets were written to the receiving modem"); Out o = decode(port::take(TX)); kit::evals();
            if (o.body != body) fail("payload %s was transmitted as %s", hex(body).c_str(), hex(o.body).c_str());
            if (o.dest != dest) fail("a packet for %d was transmitted to %d", dest, o.dest);
            auto rsp = [&](uint8_t t) { port::rx(rp, frame(data((uint8_t)r.below(256), t, rbytes(r, r.chance(70) ? 0 : r.range(1, 9)), r))); port::gap(); };
            switch (kind) {
            case 1: rsp(0x81); break; case 2: rsp(0x82); break; case 3: break; case 4: late = true; break;
            case 5: in.src = r.range(1, 254); in.body = rbytes(r, rlen(r)); port::rx((int)r.below(2), frame(data((uint8_t)in.src, 0x40, in.body, r))); rsp(0x80); break;
            case 6: port::rx(rp, frame(data(1, 0x80, Bytes(), r), r.range(1, 255))); port::gap(); break;
            default: rsp(0x80); }
            return true;
        }
        if (port::idle()) return false;
        readOnce(); return true;
    };
    int rc = to ? sn.unicast(body.data(), (uint16_t)body.size(), to) : sn.broadcast(body.data(), (uint16_t)body.size());
    port::onWait = nullptr; note("send of %zu octets to %d, kind %d: %d", body.size(), dest, kind, rc);
    if (!seen) { if (body.size() <= 240 || rc >= 0 || !port::take(TX).empty()) fail("a packet of %zu octets was not transmitted, send returned %d", body.size(), rc); count("refused_too_long"); return; }
    bool ok = kind == 0 || kind == 5 || kind >= 7; kit::evals();
    if (ok ? rc != (int)body.size() : rc >= 0) fail("send of %zu octets returned %d; the modem %s", body.size(), rc, ok ? "acknowledged it" : "did not acknowledge it");
    if (late && r.chance(80)) { port::rx(rp, frame(data(1, r.chance(50) ? 0x80 : 0x82, Bytes(), r))); port::gap(); }
    pump(); port::take(RX); port::take(TX);
    if (in.src >= 0) { if (got.size() != g0 + 1 || got.back().src != in.src || got.back().body != in.body) fail("a packet received while a send waits for its acknowledgement was not read"); }
    else if (got.size() != g0) fail("a packet was read while none was received");
    count("frames_sent"); count(ok ? "sends_confirmed" : "sends_failed"); kit::distinct(kit::fnv(body.data(), body.size(), (uint64_t)kind));
}
}
KITPROP(lora, "received octets of both modems (frames, other frames, noise, damage, pauses, interleaved) and sends with every kind of response", 0) {
    Net net(r); net.bufLen = r.chance(70) ? 1024 : (size_t)r.range(1, 256);
    std::vector<int> v[2]; std::vector<size_t> must[2]; int uniq = 0, ports = r.chance(50) ? 2 : 1; int wild = r.chance(15);
    for (int p = 0; p < ports; p++) {
        auto& w = v[p]; auto add = [&](const Bytes& b) { for (uint8_t c : b) w.push_back(c); };
        if (wild) { for (int i = r.range(1, 700); i > 0; i--) { if (r.chance(12)) { w.push_back(0x7e); w.push_back(r.chance(80) ? 0 : r.below(256)); w.push_back(r.chance(60) ? r.range(0, 20) : r.below(256)); if (r.chance(60)) { for (int k = 0; k < 5; k++) w.push_back(r.below(100)); w.push_back(r.chance(70) ? 0x40 : 0x80); } } else if (r.chance(3)) w.push_back(port::GAP); else w.push_back(rb(r)); } count("arbitrary_streams"); }
        else for (int i = r.range(1, 10); i > 0; i--) {
            Bytes body = rbytes(r, rlen(r)); ++uniq; if (body.size() > 1) { body[0] = (uint8_t)uniq; body[body.size() - 1] = (uint8_t)p; } uint8_t src = (uint8_t)(uniq * 2 + p); Bytes d = data(src, 0x40, body, r);
            switch (r.below(12)) {
            case 0: { static const uint8_t t[] = {0x80, 0x81, 0x82, 0x83, 0x84, 0x41, 0x00, 0xff, 0xc0}; d[5] = t[r.below(9)]; if (r.chance(60)) d.resize(6); add(frame(d)); count("other_frames"); break; }
            case 1: { Bytes x = rbytes(r, r.range(1, 30)); for (auto& b : x) if (b == 0x7e) b = 0x7d; if (r.chance(40)) { Bytes f = frame(d); x.insert(x.end(), f.begin() + 1, f.end()); } add(x); count("noise"); break; }
            case 2: add(frame(d, r.range(1, 255))); count("bad_checksums"); break;
            case 3: { Bytes f = frame(d); f.resize(r.range(1, (int)f.size() - 1)); add(f); count("cut_off"); break; }
            case 4: { Bytes f = frame(d); size_t k = r.range(1, (int)f.size() - 1); for (size_t j = 0; j < f.size(); j++) { if (j == k) w.push_back(port::GAP); w.push_back(f[j]); } count("pause_inside"); break; }
            case 5: { Bytes o = d; int n = r.range(0, 6); o.resize(n); add(frame(o)); count("short_frames"); break; }
            case 6: { Bytes o = data(src, 0x40, rbytes(r, r.range(257, 3000)), r); add(frame(o)); count("long_frames"); break; }
            case 7: { Bytes f = frame(d); f[r.below(f.size())] ^= (uint8_t)(1 << r.below(8)); add(f); count("flipped_bits"); break; }
            case 8: { Bytes f = frame(d, 0, r.chance(50) ? r.range(0, 300) : r.range(0, 65535)); add(f); count("false_lengths"); break; }
            default: if (body.size() <= net.bufLen) must[p].push_back(w.size()); add(frame(d)); count("good_frames"); }
            if (r.chance(40)) w.push_back(port::GAP);
        }
    }
    size_t at[2] = {0, 0}; int run = r.chance(30) ? 1 : r.range(1, 60), left = 0, cur = 0;
    while (at[0] < v[0].size() || at[1] < v[1].size()) { if (left-- <= 0) { cur = (int)r.below(2); left = r.range(1, run); } if (at[cur] >= v[cur].size()) cur ^= 1; int x = v[cur][at[cur]++]; if (x < 0) port::gap(); else port::rx(cur, Bytes(1, (uint8_t)x)); }
    if (ports == 2) count("interleaved_ports");
    net.pump();
    std::vector<Pkt> cand[2]; std::vector<bool> used[2]; size_t end[2] = {0, 0}, k[2] = {0, 0}; for (int p = 0; p < 2; p++) { cand[p] = readings(v[p], p); used[p].resize(cand[p].size()); } kit::evals(net.got.size() + must[0].size() + must[1].size());
    for (auto& g : net.got) {
        bool found = false;
        for (int p = 0; p < 2 && !found; p++) for (size_t i = k[p]; i < cand[p].size(); i++) if (cand[p][i].pos >= end[p] && cand[p][i].src == g.src && cand[p][i].body == g.body) { used[p][i] = true; end[p] = cand[p][i].end; k[p] = i + 1; found = true; break; }
        if (!found) fail("read() returned a packet that was not received, or not in this order: from %d, %s", g.src, hex(g.body).c_str());
    }
    for (int p = 0; p < 2; p++) for (size_t m : must[p]) { bool ok = false; for (size_t i = 0; i < cand[p].size(); i++) if (cand[p][i].pos == m && used[p][i]) ok = true; if (!ok) fail("a well-formed packet (octet %zu received by modem %d) was not read; packets read: %zu", m, p, net.got.size()); }
    kit::distinct(kit::fnv(v[0].data(), v[0].size() * sizeof v[0][0], kit::fnv(v[1].data(), v[1].size() * sizeof v[1][0]))); port::gap(); net.pump(); count("streams"); net.got.clear(); net.bufLen = 1024;
    for (int i = r.range(0, 8); i > 0; i--) {
        int w = (int)r.below(4), dest = r.range(1, 254);
        if (w == 0) net.send(nullptr, 255);
        else if (w == 1) { Str s = std::to_string(dest); if (r.chance(30)) s += ",forwarder"; SensorNetAddress a; if (a.setAddress(&s) != 0) fail("address %s is refused", s.c_str()); net.send(&a, dest); }
        else { SensorNetAddress a; if (w == 2) { size_t n = net.got.size(); port::rx((int)r.below(2), frame(data((uint8_t)dest, 0x40, rbytes(r, rlen(r)), r))); net.pump(); if (net.got.size() != n + 1 || net.got.back().src != dest) fail("a packet was not read"); a = *net.sn.getSenderAddress(); } else a.setAddress((uint8_t)dest);
            SensorNetAddress b; b.setAddress((uint8_t)(dest ^ (1 << r.below(8)))); SensorNetAddress c; c.setAddress((uint8_t)dest); if (a.isMatch(&b) || !a.isMatch(&c)) fail("address %d is confused with another", dest); net.send(&a, dest); }
    }
    kit::sample(std::to_string(v[0].size()) + "+" + std::to_string(v[1].size()) + " octets received, " + std::to_string(must[0].size() + must[1].size()) + " packets that must be read, " + std::to_string(cand[0].size() + cand[1].size()) + " readings");
}
