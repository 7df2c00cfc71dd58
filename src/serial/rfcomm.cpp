// C34: the Bluetooth RFCOMM sensor network on simulated sockets, against a model of the devices' streams.
#include "../kit/kit.h"
#include <errno.h>
#include <semaphore.h>
#include <stdarg.h>
#include <string.h>
#include <sys/select.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <memory>
#include <algorithm>
#include <bluetooth/bluetooth.h>
#include <bluetooth/rfcomm.h>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
namespace {
typedef std::string Str;
struct Addr { uint8_t b[6]; bool operator==(const Addr& o) const { return !memcmp(b, o.b, 6); } Str text() const { char t[20]; snprintf(t, sizeof t, "%02X:%02X:%02X:%02X:%02X:%02X", b[5], b[4], b[3], b[2], b[1], b[0]); return t; } };
struct Expect { Bytes p; size_t end; bool must; };
struct Conn { // a device's connection
    Addr a; int ch; int fd = -1; Bytes in; size_t at = 0, avail = 0; std::deque<Expect> want; Bytes out; size_t checked = 0; bool left = false, reset = false, gwShut = false, gwClosed = false, broken = false, stalled = false, cut = false; size_t room = 0;
    bool open() const { return fd >= 0 && !gwClosed; }
    Str name() const { return a.text() + "." + std::to_string(ch); }
};
typedef std::shared_ptr<Conn> C;
struct Lst { int ch = 0; bool bound = false, listening = false; };
struct World {
    bool on = false; std::map<int, Lst> lst; std::map<int, C> conn; std::map<int, std::deque<C>> pending; std::vector<C> all; uint32_t noSock = 0, noBind = 0; int nextSock = 0, nextFd = 500; Rng* r = nullptr; Addr own; size_t waits = 0; int burst = 1000;
} w;
bool fake(int fd) { return w.on && fd >= 400 && fd < 1020; }
Str hex(const Bytes& b, size_t max = 24) { Str s; char t[4]; for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02X", b[i]); s += t; } return b.size() > max ? s + ".." + std::to_string(b.size()) : s; }
bool readable(const Conn& c) { return c.at < c.avail || c.gwShut || ((c.left || c.reset) && c.avail >= c.in.size()); }
}
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const sockaddr*, socklen_t); int __real_listen(int, int); int __real_accept(int, sockaddr*, socklen_t*); int __real_setsockopt(int, int, int, const void*, socklen_t); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); int __real_shutdown(int, int); int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __wrap_socket(int d, int t, int p) {
    if (!w.on) return __real_socket(d, t, p);
    if (d != AF_BLUETOOTH || t != SOCK_STREAM || p != BTPROTO_RFCOMM) fail("socket(%d, %d, %d)", d, t, p);
    int k = w.nextSock++; if (w.noSock >> (k % 32) & 1) { errno = EMFILE; return -1; }
    int fd = 400 + k; if (k > 90) fail("more sockets than channels"); w.lst[fd] = Lst(); return fd;
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) {
    if (!fake(fd)) return __real_bind(fd, a, n);
    const sockaddr_rc* rc = (const sockaddr_rc*)a; if (!w.lst.count(fd)) { errno = EBADF; return -1; }
    if (n != sizeof *rc || rc->rc_family != AF_BLUETOOTH || rc->rc_channel < 1 || rc->rc_channel > 30) { errno = EINVAL; return -1; }
    if (memcmp(&rc->rc_bdaddr, w.own.b, 6)) fail("bound to another address than the configured one");
    if (w.noBind >> rc->rc_channel & 1) { errno = EADDRINUSE; return -1; }
    for (auto& l : w.lst) if (l.second.bound && l.second.ch == rc->rc_channel) { errno = EADDRINUSE; return -1; }
    w.lst[fd].ch = rc->rc_channel; w.lst[fd].bound = true; return 0;
}
int __wrap_listen(int fd, int b) { if (!fake(fd)) return __real_listen(fd, b); if (!w.lst.count(fd) || !w.lst[fd].bound) { errno = EBADF; return -1; } w.lst[fd].listening = true; return 0; }
int __wrap_accept(int fd, sockaddr* a, socklen_t* n) {
    if (!fake(fd)) return __real_accept(fd, a, n);
    if (!w.lst.count(fd)) fail("accept() on a socket that is not open");
    auto& q = w.pending[w.lst[fd].ch]; if (q.empty()) fail("accept() waits for ever: no device is connecting on channel %d", w.lst[fd].ch);
    C c = q.front(); q.pop_front(); c->fd = w.nextFd++; if (w.nextFd >= 1015) w.nextFd = 500; w.conn[c->fd] = c;
    sockaddr_rc rc; memset(&rc, 0, sizeof rc); rc.rc_family = AF_BLUETOOTH; rc.rc_channel = (uint8_t)w.r->range(1, 30); memcpy(&rc.rc_bdaddr, c->a.b, 6); if (a && n) { memcpy(a, &rc, std::min<size_t>(*n, sizeof rc)); *n = sizeof rc; } // the channel of the device's end is its own
    note("accepted %s", c->name().c_str()); count("accepted"); return c->fd;
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!fake(fd)) return __real_setsockopt(fd, l, o, v, n); if (!w.lst.count(fd) && !w.conn.count(fd)) { errno = EBADF; return -1; } return 0; }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
    if (!fake(fd)) return __real_send(fd, b, n, f);
    auto it = w.conn.find(fd); if (it == w.conn.end()) { errno = EBADF; return -1; }
    Conn& c = *it->second; if (c.left || c.reset || c.gwShut) { errno = EPIPE; return -1; }
    if (c.stalled) { size_t k = std::min(n, c.room); c.room -= k; c.out.insert(c.out.end(), (const uint8_t*)b, (const uint8_t*)b + k); if (k < n) c.cut = true; if (k) return (ssize_t)k; errno = EAGAIN; return -1; }
    c.out.insert(c.out.end(), (const uint8_t*)b, (const uint8_t*)b + n); return (ssize_t)n;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { return fake(fd) ? __wrap_send(fd, b, n, 0) : __real_write(fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
    if (!fake(fd)) return __real_recv(fd, b, n, f);
    auto it = w.conn.find(fd); if (it == w.conn.end()) { errno = EBADF; return -1; }
    Conn& c = *it->second; if (f & MSG_PEEK) { size_t k = std::min(n, c.avail - c.at); memcpy(b, &c.in[c.at], k); if (k) return (ssize_t)k; }
    if (!n) return 0;
    if (n > 0x7fffffff) fail("recv() for %zd octets", (ssize_t)n);
    size_t k = std::min({n, c.avail - c.at, (size_t)w.burst});
    if (k) { memcpy(b, &c.in[c.at], k); c.at += k; return (ssize_t)k; }
    if (!readable(c)) { if (!(f & MSG_DONTWAIT)) fail("the receiver waits on %s and serves no other device", c.name().c_str()); errno = EAGAIN; return -1; }
    if (++w.waits > 3000) fail("the end of the connection of %s is read again and again", c.name().c_str());
    if (c.reset && !c.gwShut) { errno = ECONNRESET; return -1; }
    return 0;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return fake(fd) ? __wrap_recv(fd, b, n, 0) : __real_read(fd, b, n); }
int __wrap_shutdown(int fd, int how) { if (!fake(fd)) return __real_shutdown(fd, how); auto it = w.conn.find(fd); if (it == w.conn.end()) { errno = EBADF; return -1; } it->second->gwShut = true; return 0; }
int __wrap_close(int fd) {
    if (!fake(fd)) return __real_close(fd);
    auto it = w.conn.find(fd); if (it != w.conn.end()) { it->second->gwClosed = true; note("closed %s", it->second->name().c_str()); w.conn.erase(it); return 0; }
    if (!w.lst.erase(fd)) fail("a socket is closed twice, the number can be another one's by then");
    return 0;
}
int __wrap_select(int nfds, fd_set* r, fd_set* ww, fd_set* e, timeval* tv) {
    if (!w.on) return __real_select(nfds, r, ww, e, tv);
    int n = 0; for (int fd = 0; fd < nfds; fd++) {
        if (!r || !FD_ISSET(fd, r)) continue;
        bool rd; auto l = w.lst.find(fd); auto c = w.conn.find(fd);
        if (l != w.lst.end()) rd = l->second.listening && !w.pending[l->second.ch].empty(); else if (c != w.conn.end()) rd = readable(*c->second); else fail("select() with socket %d, which is not open", fd);
        if (rd) n++; else FD_CLR(fd, r);
    }
    return n;
}
void __wrap__ZN8MQTTSNGW7Process6putLogEPKcz(void*, const char*, ...) {}
}
namespace {
Bytes packet(Rng& r, size_t n, int uniq) {
    Bytes p; if (n < 256 && !(r.chance(15) && n >= 4)) { p.push_back((uint8_t)n); } else { p.push_back(1); p.push_back((uint8_t)(n >> 8)); p.push_back((uint8_t)n); }
    while (p.size() < n) p.push_back((uint8_t)(r.chance(30) ? r.below(4) : r.below(256)));
    if (n > p[0] - 0u && n > 8) { p[n - 1] = (uint8_t)uniq; p[n - 2] = (uint8_t)(uniq >> 8); }
    return p;
}
struct Net {
    std::unique_ptr<SensorNetwork> sn; Rng& r; int uniq = 0; size_t quiet = 0; std::vector<Addr> devs; std::vector<int> chs;
    Net(Rng& rr) : r(rr) {}
    bool readOnce() {
        size_t len = MQTTSNGW_MAX_PACKET_SIZE; uint8_t* buf = new uint8_t[len]; int n = sn->read(buf, (uint16_t)len);
        Bytes got; if (n > 0) { if ((size_t)n > len) fail("read() returned %d", n); got.assign(buf, buf + n); }
        delete[] buf; if (n <= 0) return false;
        char t[60] = {0}; sn->getSenderAddress()->sprint(t); kit::evals(); count("packets_read");
        // the connection it came from: the one of this device on this channel
        for (auto& c : w.all) if (c->name() == t && c->fd >= 0) {
            while (!c->want.empty() && !c->want.front().must && c->want.front().p != got && c->want.front().end <= c->at) c->want.pop_front();
            if (c->want.empty() || c->want.front().end > c->at || c->want.front().p != got) continue;
            c->want.pop_front(); kit::distinct(kit::fnv(got.data(), got.size())); return true;
        }
        fail("read() returned %s from %s, which is not the next packet this device has sent", hex(got).c_str(), t);
    }
    void pump() { int idle = 0; for (int i = 0; idle < 70; i++) { if (i > 100000) fail("read() never comes to an end"); bool work = false; for (auto& c : w.conn) if (readable(*c.second)) work = true; for (auto& l : w.lst) if (!w.pending[l.second.ch].empty()) { bool busy = false; for (auto& c : w.conn) if (c.second->ch == l.second.ch) busy = true; if (!busy) work = true; } if (readOnce()) { idle = 0; continue; } if (!work) break; idle++; } 
        for (auto& c : w.conn) if (readable(*c.second)) fail("what %s has sent is not read", c.second->name().c_str());
        for (auto& q : w.pending) if (!q.second.empty()) { bool busy = false; for (auto& c : w.conn) if (c.second->ch == q.first) busy = true; kit::evals(); if (!busy) fail("%s is not accepted, though its channel is free", q.second.front()->name().c_str()); }
        for (auto& c : w.all) { if ((c->broken || c->gwShut) && c->gwClosed) continue; for (auto& e : c->want) if (e.must && e.end <= c->avail && c->fd >= 0) fail("the packet %s of %s was not read", hex(e.p).c_str(), c->name().c_str()); }
    }
    void outputs(const char* what, const std::function<Bytes(Conn&)>& f) {
        for (auto& c : w.all) { Bytes o(c->out.begin() + c->checked, c->out.end()); c->checked = c->out.size(); Bytes x = f(*c); kit::evals(); if (o == x) continue; if (c->cut && o.size() <= x.size() && std::equal(o.begin(), o.end(), x.begin())) continue; fail("%s: %s got %s instead of %s", what, c->name().c_str(), hex(o).c_str(), hex(x).c_str()); }
    }
};
}
KITPROP(rfcomm, "devices that connect, send packets whose octets arrive in any pieces, stop reading, leave, are replaced; unicast and broadcast", 0) {
    w = World(); w.r = &r; Net net(r); static Process* proc = nullptr; if (!proc) { proc = new Process(); theProcess = proc; } w.burst = r.chance(60) ? 5000 : r.range(1, 60);
    auto raddr = [&] { Addr a; for (auto& b : a.b) b = (uint8_t)r.below(256); if (!a.b[5]) a.b[5] = 1; return a; };
    w.own = raddr(); if (chdir(kit::scratchDir().c_str())) fail("chdir");
    bool bad = r.chance(3); FILE* f = fopen("gateway.conf", "w"); fprintf(f, "GatewayID=1\nRFCOMMAddress=%s%s\n", bad ? (r.chance(50) ? "nothing" : "00:00:00:00:00:00") : w.own.text().c_str(), bad && r.chance(50) ? "" : r.chance(50) ? ".0" : ".*"); fclose(f);
    if (r.chance(40)) { w.noBind = (uint32_t)r.next() & (uint32_t)r.next(); w.noSock = r.chance(50) ? (uint32_t)r.next() & (uint32_t)r.next() : 0; } else if (r.chance(5)) { if (r.chance(50)) w.noBind = ~0u; else w.noSock = ~0u; }
    w.on = true; net.sn.reset(new SensorNetwork()); bool threw = false;
    try { net.sn->initialize(); } catch (Exception&) { threw = true; }
    for (auto& l : w.lst) if (l.second.listening) net.chs.push_back(l.second.ch);
    if (!bad && !w.noSock) for (int ch = 1; ch <= 30; ch++) if (!(w.noBind >> ch & 1) && std::find(net.chs.begin(), net.chs.end(), ch) == net.chs.end()) fail("the gateway does not listen on channel %d", ch);
    if (!bad && w.noSock != ~0u && !w.noBind) { int n = 0; for (int k = 0; k < 30; k++) n += !(w.noSock >> k & 1); if ((int)net.chs.size() != n) fail("the gateway listens on %zu channels, %d could be opened", net.chs.size(), n); }
    kit::evals(); if (threw != (bad || net.chs.empty())) fail(threw ? "initialize() fails, %zu channels were opened" : "initialize() succeeds with %zu channels and a %s address", net.chs.size(), bad ? "bad" : "good");
    if (threw) { net.sn.reset(); w.on = false; if (!w.lst.empty()) fail("sockets remain open"); count("refused_starts"); return; }
    int nd = r.range(1, 5); net.devs.push_back(raddr()); while ((int)net.devs.size() < nd) { Addr a = net.devs[0]; a.b[r.below(6)] ^= (uint8_t)(1 << r.below(8)); if (r.chance(30)) a = raddr(); if (a.b[5] | a.b[4] | a.b[3]) net.devs.push_back(a); }
    int few = r.chance(70) ? std::min<int>((int)net.chs.size(), r.range(1, 4)) : (int)net.chs.size(); for (int i = 0; i < few; i++) std::swap(net.chs[i], net.chs[i + r.below(net.chs.size() - i)]);
    auto sock = [&](int ch, const Addr& a) { SensorNetAddress s; Str t = a.text() + "." + std::to_string(ch); if (s.setAddress(&t) != 0) fail("address %s is refused", t.c_str()); return s; };
    int steps = r.range(5, 60);
    for (int i = 0; i < steps; i++) {
        std::vector<C> live; for (auto& c : w.all) if (!c->left && !c->reset && !c->gwClosed && c->in.size() < 60000) live.push_back(c);
        int k = (int)r.below(100);
        if (k < 12 || live.empty()) { C c(new Conn); c->a = net.devs[r.below(net.devs.size())]; c->ch = net.chs[r.below(few)]; if (w.pending[c->ch].size() < 2) { w.pending[c->ch].push_back(c); w.all.push_back(c); note("%s connects", c->name().c_str()); count("connections"); } }
        else if (k < 45) { // packets; none with the length of a message that fits follows a broken one
            C c = live[r.below(live.size())]; if (c->broken) continue; int n = r.range(1, 5);
            for (int j = 0; j < n; j++) {
                size_t len = 2; switch (r.below(8)) { case 0: len = r.range(2, 4); break; case 1: len = r.range(250, 262); break; case 2: len = r.range(1018, 1024); break; case 3: len = r.chance(30) ? r.range(1025, 5000) : r.range(4, 1024); break; default: len = r.range(2, 60); }
                if (len > 1024 && c->in.size() > 20000) len = 1024;
                Bytes p = packet(r, len, ++net.uniq); c->in.insert(c->in.end(), p.begin(), p.end()); if (len <= 1024) c->want.push_back({p, c->in.size(), true}); else count("too_long"); count("packets_sent");
            }
            if (r.chance(70)) c->avail = c->in.size(); else c->avail = c->avail + r.below(c->in.size() - c->avail + 1);
        }
        else if (k < 55) { C c = live[r.below(live.size())]; c->avail += r.chance(50) ? std::min<size_t>(c->in.size() - c->avail, r.range(1, 3)) : r.below(c->in.size() - c->avail + 1); count("pieces"); }
        else if (k < 57) { C c = live[r.below(live.size())]; if (c->broken) continue; c->broken = true; if (r.chance(50)) c->in.push_back(0); else { c->in.push_back(1); c->in.push_back(0); c->in.push_back((uint8_t)r.below(3)); } for (int j = r.range(0, 20); j > 0; j--) c->in.push_back((uint8_t)r.below(256)); c->avail = c->in.size(); note("%s sends an impossible length", c->name().c_str()); count("impossible_lengths"); }
        else if (k < 62) { C c = live[r.below(live.size())]; (r.chance(70) ? c->left : c->reset) = true; if (c->reset) { c->in.resize(c->at); while (!c->want.empty() && c->want.back().end > c->at) c->want.pop_back(); } if (r.chance(50) || c->reset) c->avail = c->in.size(); note("%s %s", c->name().c_str(), c->left ? "leaves" : "is reset"); count("left"); if (c->fd < 0) { auto& q = w.pending[c->ch]; if (c->reset) for (size_t x = 0; x < q.size(); x++) if (q[x] == c) { q.erase(q.begin() + x); break; } } }
        else if (k < 64) { C c = live[r.below(live.size())]; c->stalled = true; c->room = r.range(0, 30); note("%s does not read any more", c->name().c_str()); count("stalled"); }
        else if (k < 84) {
            for (int j = r.range(1, 6); j > 0; j--) net.readOnce();
        }
        else {
            Bytes p = packet(r, r.chance(80) ? r.range(2, 60) : r.range(2, 1024), ++net.uniq); std::vector<uint8_t> heap(p); std::vector<C> open; for (auto& c : w.conn) open.push_back(c.second);
            auto usable = [](Conn& c) { return c.open() && !c.left && !c.reset && !c.gwShut && !(c.stalled && !c.room && c.cut); };
            if (k < 88) { std::vector<C> u; for (auto& c : open) if (usable(*c)) u.push_back(c); net.sn->broadcast(heap.data(), (uint16_t)heap.size()); net.outputs("broadcast", [&](Conn& c) { for (auto& x : u) if (x.get() == &c) return p; return Bytes(); }); count("broadcasts"); }
            else {
                int ch = net.chs[r.below(few)]; Addr a = net.devs[r.below(net.devs.size())]; if (r.chance(60) && !open.empty()) { C c = open[r.below(open.size())]; ch = c->ch; a = c->a; } if (r.chance(8)) ch = r.chance(50) ? 0 : r.range(1, 30);
                C to; for (auto& c : open) if (c->ch == ch && c->a == a && usable(*c)) to = c;
                SensorNetAddress s = sock(ch, a); int rc = net.sn->unicast(heap.data(), (uint16_t)heap.size(), &s); bool cut = to && to->cut;
                net.outputs("unicast", [&](Conn& c) { return to && to.get() == &c ? p : Bytes(); }); kit::evals();
                if (to && !cut ? rc != (int)p.size() : rc >= 0) fail("a packet of %zu octets for %s.%d was %s, unicast() returned %d", p.size(), a.text().c_str(), ch, to && !cut ? "sent" : "not sent", rc);
                count(to ? "unicasts" : "unicasts_nobody");
            }
        }
    }
    for (auto& c : w.all) c->avail = c->in.size();
    net.pump(); for (auto& c : w.all) if (c->broken && c->open() && !c->left && !c->reset) { count("broken_streams_kept"); }
    // one that never stops sending and another
    { std::vector<C> ok; for (auto& c : w.conn) if (!c.second->broken && !c.second->left && !c.second->reset && !c.second->gwShut) ok.push_back(c.second);
      if (ok.size() > 1 && r.chance(30)) {
        size_t x = r.below(ok.size()), y = (x + 1 + r.below(ok.size() - 1)) % ok.size(); auto say = [&](C& c) { Bytes p = packet(r, r.range(2, 12), ++net.uniq); c->in.insert(c->in.end(), p.begin(), p.end()); c->want.push_back({p, c->in.size(), true}); c->avail = c->in.size(); };
        for (int i = 0; i < 300; i++) say(ok[x]); say(ok[y]); for (int i = 0; i < 150 && !ok[y]->want.empty(); i++) net.readOnce(); kit::evals(); count("busy_device_checked");
        if (!ok[y]->want.empty()) fail("%s is not served while %s sends one packet after another", ok[y]->name().c_str(), ok[x]->name().c_str()); net.pump(); } }
    // addresses
    for (int i = 0; i < 4; i++) {
        Addr a = raddr(), b = a; int ch = r.range(1, 30), ch2 = r.range(1, 30); b.b[r.below(6)] ^= (uint8_t)(1 << r.below(8)); SensorNetAddress x = sock(ch, a), y = sock(ch, a), z = sock(ch, b), v = sock(ch2, a); char t[60]; Str want = a.text() + "." + std::to_string(ch); kit::evals();
        if (want != x.sprint(t)) fail("address %s is printed as %s", want.c_str(), t);
        if (!x.isMatch(&y) || x.isMatch(&z) || x.isMatch(&v) != (ch == ch2)) fail("address %s is confused with another", want.c_str());
        SensorNetAddress as; as = x; if (!as.isMatch(&x) || as.isMatch(&z)) fail("a copy of address %s differs", want.c_str());
        static const char* no[] = {"", "11:22:33:44:55:66", "00:00:00:00:00:00.1"}; Str n = r.chance(50) ? no[r.below(3)] : a.text() + "." + std::to_string(r.chance(30) ? 31 : r.range(31, 65535)); SensorNetAddress q; if (q.setAddress(&n) == 0) fail("address '%s' is accepted", n.c_str());
    }
    kit::sample(std::to_string(w.all.size()) + " connections on " + std::to_string(few) + " of " + std::to_string(net.chs.size()) + " channels, " + std::to_string(net.uniq) + " packets");
    net.sn.reset(); w.on = false; if (!w.lst.empty() || !w.conn.empty()) fail("%zu sockets remain open", w.lst.size() + w.conn.size());
    w.all.clear(); w.pending.clear();
}
