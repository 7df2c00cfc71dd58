// Components of the gateway driven directly against reference models: topic filters (C20), topic table ids (C11),
// message id table of the aggregating gateway (C19), configuration parameters (C22), the queue container (C23).
#include "../kit/kit.h"
#include <stdlib.h>
#include <string.h>
#include <semaphore.h>
#include <sys/shm.h>
#include <unistd.h>
#include <map>
#include <set>
#include <deque>
#include "MQTTSNGWDefines.h"
#include "MQTTSNGateway.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWAggregater.h"
#include "MQTTSNGWMessageIdTable.h"
using namespace MQTTSNGW;
using kit::fail; using kit::note; using kit::count;
typedef std::string Str;
// the gateway's process object wants a shared memory segment and a named semaphore; they stay in this process
static sem_t theSem; static char theShm[65536];
extern "C" {
sem_t* __wrap_sem_open(const char*, int, ...) { sem_init(&theSem, 0, 0); return &theSem; }
int __wrap_sem_close(sem_t*) { return 0; }
int __wrap_sem_unlink(const char*) { return 0; }
key_t __wrap_ftok(const char*, int) { return 1; }
int __wrap_shmget(key_t, size_t, int) { return 1; }
void* __wrap_shmat(int, const void*, int) { return theShm; }
int __wrap_shmdt(const void*) { return 0; }
int __wrap_shmctl(int, int, struct shmid_ds*) { return 0; }
}
namespace {
// ---- MQTT 3.1.1 4.7 matching, by levels
std::vector<Str> levels(const Str& s) { std::vector<Str> v(1); for (char c : s) if (c == '/') v.emplace_back(); else v.back() += c; return v; }
bool matches(const std::vector<Str>& f, const std::vector<Str>& t) {
    size_t i = 0;
    for (; i < f.size(); i++) { if (f[i] == "#") return true; if (i >= t.size()) return false; if (f[i] != "+" && f[i] != t[i]) return false; }
    return i == t.size();
}
bool validFilter(const Str& s) { auto v = levels(s); for (size_t i = 0; i < v.size(); i++) { if (v[i].find_first_of("+#") != Str::npos && v[i].size() > 1) return false; if (v[i] == "#" && i + 1 < v.size()) return false; } return !s.empty(); }
bool real(const Str& f, const Str& t) { Topic topic(new Str(f), MQTTSN_TOPIC_TYPE_NORMAL); Str n(t); return topic.isMatch(&n); }
void onePair(const Str& f, const Str& t) {
    bool want = matches(levels(f), levels(t)), got = real(f, t); kit::evals();
    if (want != got) { note("filter \"%s\" topic \"%s\"", f.c_str(), t.c_str()); fail("topic filter \"%s\" %s topic \"%s\", the MQTT rules say it %s", f.c_str(), got ? "matches" : "does not match", t.c_str(), want ? "does" : "does not"); }
}
std::vector<Str>& names() { static std::vector<Str> v; if (v.empty()) { const char* a = "ab/"; for (int l = 1; l <= 6; l++) { int n = 1; for (int i = 0; i < l; i++) n *= 3; for (int k = 0; k < n; k++) { Str s; int x = k; for (int i = 0; i < l; i++, x /= 3) s += a[x % 3]; v.push_back(s); } } } return v; }
Str rlevel(Rng& r, bool filter, const Str& like) {
    if (filter && r.chance(25)) return "+";
    switch (r.below(6)) { case 0: return ""; case 1: return Str(1, "abAB1"[r.below(5)]); case 2: { Str s; for (int i = r.range(1, 8); i > 0; i--) s += "abcABC0 .-_$\xc3\xa9"[r.below(14)]; if (s[0] == '$') s[0] = 'x'; return s; } case 3: { Str s = like; if (!s.empty() && r.chance(60)) s.back() ^= 1; else s += "z"; if (s.find_first_of("+#/") != Str::npos) s = "q"; return s; } case 4: { Str s; s.assign(r.range(1, 300), 'L'); return s; } default: return like; }
}
}
KITPROP(filters, "every filter of up to six characters over {a,b,/,+,#} against every topic name of up to six characters over {a,b,/}; longer random pairs", 19530) {
    if (idx < 19530) {
        uint64_t k = idx, n = 5; int l = 1; while (k >= n) { k -= n; n *= 5; l++; }
        Str f; for (int i = 0; i < l; i++, k /= 5) f += "ab/+#"[k % 5];
        if (!validFilter(f)) { count("invalid_filters"); return; }
        for (auto& t : names()) onePair(f, t);
        kit::distinct(kit::fnv(f.data(), f.size())); count("filters_exhaustive"); return;
    }
    std::vector<Str> t; int n = r.range(1, 7); for (int i = 0; i < n; i++) { t.push_back(rlevel(r, false, "a")); if (t[i].empty() && n == 1) t[i] = "t"; }
    std::vector<Str> f; int m = r.chance(60) ? n : r.range(1, 8);
    for (int i = 0; i < m; i++) { if (i == m - 1 && r.chance(25)) f.push_back("#"); else f.push_back(i < n && r.chance(70) ? t[i] : rlevel(r, true, i < n ? t[i] : "a")); }
    Str fs, ts; for (size_t i = 0; i < f.size(); i++) fs += (i ? "/" : "") + f[i]; for (size_t i = 0; i < t.size(); i++) ts += (i ? "/" : "") + t[i];
    if (fs.empty() || ts.empty() || !validFilter(fs)) return;
    onePair(fs, ts); onePair(fs, ts + "/"); onePair(fs, ts + "/x"); onePair("+/" + fs, "y/" + ts); onePair(ts, ts); onePair("#", ts); onePair(ts + "/#", ts); kit::distinct(kit::fnv(fs.data(), fs.size(), kit::fnv(ts.data(), ts.size()))); count("random_pairs", 7);
}
KITPROP(filtertable, "a table of filters: a topic name matches the table iff it matches one of its filters", 0) {
    Topics tp; std::vector<Str> fs; int n = r.range(1, 12);
    for (int i = 0; i < n; i++) { Str f; int l = r.range(1, 4); for (int k = 0; k < l; k++) f += (k ? "/" : "") + (k == l - 1 && r.chance(20) ? Str("#") : rlevel(r, true, "a")); if (!validFilter(f)) continue; fs.push_back(f); tp.add(f.c_str(), r.chance(30) ? (uint16_t)(i + 1) : 0); }
    for (int i = 0; i < 40; i++) {
        Str t; int l = r.range(1, 5); for (int k = 0; k < l; k++) t += (k ? "/" : "") + rlevel(r, false, "a"); if (t.empty()) continue;
        Str buf = t + "#/+"; // the name is not terminated in a packet
        MQTTSN_topicid id; memset(&id, 0, sizeof id); id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = (char*)buf.data(); id.data.long_.len = (int)t.size();
        bool want = false; for (auto& f : fs) want |= matches(levels(f), levels(t));
        Topic* g = tp.match(&id); kit::evals();
        if ((g != nullptr) != want) { for (auto& f : fs) note("filter \"%s\"", f.c_str()); fail("topic \"%s\" %s the table of filters", t.c_str(), want ? "does not match any of" : "matches"); }
        if (g && !matches(levels(*g->getTopicName()), levels(t))) fail("topic \"%s\" matched by filter \"%s\"", t.c_str(), g->getTopicName()->c_str());
        kit::distinct(kit::fnv(t.data(), t.size(), fs.size()));
    }
}
KITPROP(topictable, "ids handed out by a client's topic table over long histories of registrations and removals", 40) {
    Topics tp; std::map<Str, int> byName, pre; std::map<int, Str> byId; int serial = 0; long ops = idx < 40 ? 250000 : r.range(1, 400); int keep = r.range(0, 49);
    for (int i = r.below(4); i > 0; i--) { Str n = "p" + std::to_string(i); int id = r.range(1, 100); bool used = false; for (auto& x : pre) used |= x.second == id; if (used) continue; tp.add(n.c_str(), (uint16_t)id); pre[n] = id; }
    for (long i = 0; i < ops; i++) {
        int k = r.below(10);
        if ((int)byName.size() < keep + 1 || k < 5) {
            bool old = !byName.empty() && r.chance(20); Str n; if (old) { auto it = byName.begin(); std::advance(it, r.below((uint32_t)byName.size())); n = it->first; } else n = "t" + std::to_string(serial++);
            if (!pre.empty() && r.chance(5)) n = pre.begin()->first;
            Str buf = n + "xyz"; MQTTSN_topicid id; memset(&id, 0, sizeof id); id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = (char*)buf.data(); id.data.long_.len = (int)n.size();
            Topic* t = tp.add(&id); kit::evals(); bool known = byName.count(n);
            if (!t) { if (known || byName.size() + pre.size() < MAX_TOPIC_PAR_CLIENT) fail("name %s was refused with %zu names in the table (%s)", n.c_str(), byName.size() + pre.size(), known ? "known" : "new"); count("full"); }
            else {
                int g = t->getTopicId(); if (known && byName[n] != g) fail("name %s got id %d and then %d", n.c_str(), byName[n], g);
                if (g == 0 || g == 0xffff) fail("name %s got the reserved id %d", n.c_str(), g);
                if (!known) { if (byId.count(g)) fail("name %s got id %d of name %s (assignment %ld)", n.c_str(), g, byId[g].c_str(), i); if (byName.size() + pre.size() >= MAX_TOPIC_PAR_CLIENT) fail("the table holds more than %d names", MAX_TOPIC_PAR_CLIENT); byName[n] = g; byId[g] = n; count("assigned"); }
                if (*t->getTopicName() != n) fail("asked for %s, got %s", n.c_str(), t->getTopicName()->c_str());
            }
        } else if (k < 9 && (int)byName.size() > keep) { // the youngest go again, as when a client rejects registrations
            auto it = byId.begin(); std::advance(it, r.below((uint32_t)byId.size())); if (r.chance(idx % 2 ? 80 : 100)) { int best = -1; for (auto& x : byName) if (x.first[0] == 't' && atoi(x.first.c_str() + 1) > best) { best = atoi(x.first.c_str() + 1); it = byId.find(x.second); } }
            int id = it->first; tp.eraseNormal((uint16_t)id); byName.erase(it->second); byId.erase(it);
        } else if (r.chance(ops > 1000 ? 0 : 3)) { tp.eraseNormal(); byName.clear(); byId.clear(); count("sessions_cleaned"); }
        if (!byId.empty()) { auto it = byId.begin(); std::advance(it, r.below((uint32_t)byId.size())); MQTTSN_topicid id; memset(&id, 0, sizeof id); id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.id = (uint16_t)it->first; Topic* t = tp.getTopicById(&id); kit::evals(); if (!t || *t->getTopicName() != it->second) fail("id %d stands for %s instead of %s", it->first, t ? t->getTopicName()->c_str() : "nothing", it->second.c_str()); }
        for (auto& x : pre) { MQTTSN_topicid id; memset(&id, 0, sizeof id); id.type = MQTTSN_TOPIC_TYPE_PREDEFINED; id.data.id = (uint16_t)x.second; Topic* t = tp.getTopicById(&id); if (!t || *t->getTopicName() != x.first) fail("predefined id %d stands for %s instead of %s", x.second, t ? t->getTopicName()->c_str() : "nothing", x.first.c_str()); }
    }
    kit::distinct(kit::fnv(&serial, sizeof serial, byName.size()));
}
static Aggregater* aggr() { static Aggregater* a = nullptr; if (!a) { Gateway* g = new Gateway(); g->getGWParams()->maxClients = 30; g->getClientList()->initialize(true); a = new Aggregater(g); a->initialize((char*)"gw"); } return a; }
KITPROP(msgidtable, "message ids of the aggregating gateway over long histories of exchanges of several clients", 16) {
    Aggregater* a = aggr(); static char fake[16]; auto clear = [&] { for (auto& f : fake) a->clearMessageIdTable((Client*)&f); }; clear(); long ops = idx < 16 ? 250000 : r.range(1, 600); int nc = r.range(1, 8); std::deque<std::pair<std::pair<Client*, int>, int>> order; int maxOut = idx < 16 ? (idx % 2 ? 520 : 480) : r.chance(30) ? 520 : r.range(1, 60);
    std::map<std::pair<Client*, int>, int> out; std::map<int, std::pair<Client*, int>> back; uint64_t hist = 0;
    for (long i = 0; i < ops; i++) {
        Client* c = (Client*)&fake[r.below(nc)];
        if ((int)out.size() < maxOut && (out.empty() || r.chance(55))) {
            int mid = r.chance(60) ? r.range(1, 30) : r.range(1, 0xffff); auto k = std::make_pair(c, mid); uint16_t b = a->addMessageIdTable(c, (uint16_t)mid); kit::evals();
            if (out.count(k)) { if (b != out[k]) fail("the same exchange got id %d and %d", out[k], b); count("repeated"); }
            else if (b == 0) fail("no id for a new exchange with %zu outstanding", out.size());
            else {
                if (out.size() >= MAX_MESSAGEID_TABLE_SIZE) { // the oldest one has to go
                    while (!order.empty()) { auto o = order.front(); order.pop_front(); auto f = out.find(o.first); if (f == out.end() || f->second != o.second) continue; uint16_t m; if (a->convertClient((uint16_t)o.second, &m, false) && o.second != b) fail("with %zu outstanding exchanges the oldest one was not given up for a new one", out.size()); out.erase(f); back.erase(o.second); count("given_up"); break; } }
                order.push_back({k, b});
                if (back.count(b)) fail("id %d is given to two outstanding exchanges (operation %ld)", b, i); if (b == 0xffff) fail("id 65535"); out[k] = b; back[b] = k; count("assigned"); }
            hist = hist * 31 + b;
        } else if (!back.empty()) {
            auto it = back.begin(); std::advance(it, r.below((uint32_t)back.size())); uint16_t m = 0; bool done = r.chance(70);
            Client* g = a->convertClient((uint16_t)it->first, &m, done); kit::evals();
            if (g != it->second.first || m != it->second.second) fail("acknowledgement of id %d went to message id %d instead of %d, %s client", it->first, m, it->second.second, g == it->second.first ? "right" : "wrong");
            if (a->getMsgId(it->second.first, (uint16_t)it->second.second) != (done ? 0 : it->first)) fail("id %d is %s after the exchange %s", it->first, done ? "still known" : "forgotten", done ? "was completed" : "went on");
            if (done) { out.erase(it->second); back.erase(it); count("completed"); }
        }
        if (r.chance(5)) { int b; do b = r.range(1, 0xfffe); while (back.count(b)); uint16_t m = 7; Client* g = a->convertClient((uint16_t)b, &m); kit::evals(); if (g) fail("id %d, which is not outstanding, belongs to a client", b); }
        if (ops < 1000 && r.chance(1)) { clear(); out.clear(); back.clear(); order.clear(); }
    }
    kit::distinct(kit::fnv(&hist, sizeof hist));
}
// ---- C22
namespace {
Str trim(const Str& s) { size_t a = 0, b = s.size(); auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; }; while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
struct Conf : Process { using Process::initialize; };
}
KITPROP(params, "configuration files of every shape against a line by line reading", 0) {
    static const char* const kn[] = {"BrokerName", "BrokerPortNo", "BrokerPort", "Broker", "GatewayName", "Gateway", "A", "AB", "ABC", "LoginID", "ShearedMemory", "KeepAlive", "MaxNumberOfClients", "b", "Name with space", "P\xc3\xa9"};
    const int NK = sizeof kn / sizeof *kn;
    std::vector<Str> lines; int n = r.chance(10) ? r.range(0, 1) : r.range(2, 40);
    auto text = [&](int max) { Str s; int l = r.chance(50) ? r.below(12) : r.below(max + 1); for (int i = 0; i < l; i++) s += r.chance(85) ? (char)('a' + r.below(26)) : " =#\t.,:/\\\"%s\xff\x80"[r.below(14)]; return s; };
    for (int i = 0; i < n; i++) {
        Str l; const char* k = kn[r.below(NK)];
        switch (r.below(12)) {
        case 0: l = ""; break;
        case 1: l = "#" + Str(k) + "=" + text(60); break;
        case 2: l = Str("# ") + text(100); break;
        case 3: l = text(40); for (auto& c : l) if (c == '=') c = '-'; break;             // no '='
        case 4: l = Str(k) + " =" + text(30); break;                                     // another name: it has a blank at the end
        case 5: l = " " + Str(k) + "=" + text(30); break;
        case 6: l = Str(k).substr(0, r.below((uint32_t)strlen(k) + 1)) + "=" + text(30); break;
        case 7: l = Str(k) + text(3) + "=" + text(30); break;
        case 8: l = Str(1, k[0] ^ 0x20) + (k + 1) + "=" + text(20); break;                // other case
        case 9: { l = Str("#") + text(60); while ((int)l.size() < r.range(120, 600)) l += text(50) + k + "=" + text(9); for (auto& c : l) if (c == '\n') c = ' '; break; } // a comment longer than the line limit
        default: { Str pad[] = {"", " ", "  ", "\t", " \t ", "\r"}; l = Str(k) + "=" + pad[r.below(5)] + text(r.chance(20) ? 126 : 40) + pad[r.below(6)]; }
        }
        if (l[0] != '#' && l.size() > 126) l.resize(126);
        if (l.size() == 126) count("lines_of_126");
        lines.push_back(l);
    }
    bool final_ = r.chance(60); Str body; for (size_t i = 0; i < lines.size(); i++) body += lines[i] + (i + 1 < lines.size() || final_ ? "\n" : "");
    Str path = kit::scratchDir() + "/gw.conf"; FILE* f = fopen(path.c_str(), "w"); fwrite(body.data(), 1, body.size(), f); fclose(f);
    optind = 1; Str p2 = path; char a0[] = "gw", a1[] = "-f"; char* argv[] = {a0, a1, &p2[0], nullptr};
    Process* p = new Process(); p->initialize(3, argv);
    note("file:\n%s<end>", body.substr(0, 3000).c_str());
    for (int i = 0; i < NK + 2; i++) {
        Str k = i < NK ? kn[i] : i == NK ? "" : "NotThere"; bool there = false; Str want;
        if (k.empty()) continue;
        for (auto& l : lines) if (l[0] != '#') { size_t e = l.find('='); if (e != Str::npos && l.substr(0, e) == k) { there = true; want = trim(l.substr(e + 1)); break; } }
        char* val = (char*)malloc(MQTTSNGW_PARAM_MAX); memset(val, 0x5a, MQTTSNGW_PARAM_MAX); val[0] = 0;
        int rc = p->getParam(k.c_str(), val); kit::evals();
        if ((rc == 0) != there) fail("parameter %s: result %d although the file %s it", k.c_str(), rc, there ? "has" : "does not have");
        if (there && want != val) fail("parameter %s is \"%s\" instead of \"%s\"", k.c_str(), val, want.c_str());
        if (!there && val[0]) fail("parameter %s is absent but a value was stored", k.c_str());
        free(val); count(there ? "present" : "absent"); if (there && want.empty()) count("empty_values");
    }
    delete p; unlink(path.c_str());
    kit::distinct(kit::fnv(body.data(), body.size()));
}
// ---- the queue container of C23
namespace { struct Elm { int v; static int live; Elm(int v) : v(v) { live++; } ~Elm() { live--; } }; int Elm::live = 0; }
KITPROP(container, "sequences of post, front, pop, size and limits of the queue container against a list", 0) {
    Elm::live = 0;
    {
        Que<Elm> q; std::deque<Elm*> m; int max = r.chance(50) ? 0 : r.range(1, 8); if (max) q.setMaxSize(max); int n = r.range(1, 120), serial = 0; uint64_t h = max;
        for (int i = 0; i < n; i++) {
            int k = r.below(10); h = h * 11 + k;
            if (k < 5) { Elm* e = new Elm(serial++); int rc = q.post(e); bool room = !max || (int)m.size() < max; if (room) m.push_back(e); if ((rc > 0) != room || (room && rc != (int)m.size())) fail("post returned %d with %zu elements, limit %d", rc, m.size(), max); if (!rc) { delete e; count("refused"); } }
            else if (k < 8) { Elm* e = q.front(); if (e != (m.empty() ? nullptr : m.front())) fail("wrong element at the front"); q.pop(); if (!m.empty()) { m.pop_front(); delete e; } }
            else if (k == 8) { if (q.post(nullptr)) fail("a null element was accepted"); }
            if (q.size() != (int)m.size()) fail("size %d instead of %zu", q.size(), m.size());
            if (q.front() != (m.empty() ? nullptr : m.front())) fail("wrong element at the front");
            kit::evals(2);
        }
        kit::distinct(h); count("leftovers", m.size());
    }
    if (Elm::live) fail("%d elements were not deleted with the queue", Elm::live);
}
// ---- MQTT packets of a TCP stream (C07)
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <thread>
#include "MQTTGWPacket.h"
#include "Network.h"
namespace {
Bytes streamPacket(Rng& r) {
    static const int types[] = {2, 4, 5, 6, 7, 9, 11, 13, 3, 3, 3, 3, 3, 3, 3, 3}; int t = types[r.below(16)], len; Bytes body; uint8_t flags = t == 6 ? 2 : 0; // 0x62: PUBREL
    auto any = [&](int n) { while (n-- > 0) body.push_back((uint8_t)r.next()); };
    if (t == 13) ; else if (t == 9) { any(2); body.push_back((uint8_t)r.below(3)); } else if (t != 3) any(2);
    else {
        static const int edge[] = {127, 128, 255, 256, 1023, 1024, 16383, 16384, 32767, 32768, 65535, 65536, 2097151, 2097152}; int qos = r.below(3); flags = (uint8_t)(qos << 1 | r.below(2) | (qos ? r.below(2) << 3 : 0));
        switch (r.below(12)) { case 0: len = edge[r.below(12)] + r.range(-2, 2); break; case 1: len = r.range(1000, 40000); break; case 2: len = r.chance(8) ? edge[12 + r.below(2)] + r.range(-2, 2) : r.range(120, 140); break; case 3: len = r.range(3, 2000); break; default: len = r.range(3, 300); }
        int tl = 1 + r.below(std::min(len - 2, r.chance(10) ? 500 : 20)); if (qos && len < tl + 4) len = tl + 4;
        body.push_back((uint8_t)(tl >> 8)); body.push_back((uint8_t)tl); for (int i = 0; i < tl; i++) body.push_back((uint8_t)('a' + r.below(26))); if (qos) { body.push_back((uint8_t)r.below(256)); body.push_back((uint8_t)(1 + r.below(255))); }
        uint32_t x = (uint32_t)r.next() | 1; while ((int)body.size() < len) { x = x * 1664525 + 1013904223; body.push_back((uint8_t)(x >> 24)); }
    }
    Bytes b = {(uint8_t)(t << 4 | flags)}; uint32_t n = (uint32_t)body.size(); do { b.push_back((uint8_t)(n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); b.insert(b.end(), body.begin(), body.end()); return b;
}
}
KITPROP(brokerstream, "the packets read from a TCP connection against those the broker has sent on it, in pieces of every size, with lengths of one to four octets", 0) {
    std::vector<Bytes> ps; Bytes all; int n = r.range(1, 40); size_t cap = r.chance(3) ? 8000000 : 300000;
    for (int i = 0; i < n && all.size() < cap; i++) { ps.push_back(streamPacket(r)); all.insert(all.end(), ps.back().begin(), ps.back().end()); if (all.size() > cap && ps.size() > 1) { all.resize(all.size() - ps.back().size()); ps.pop_back(); break; } }
    bool cut = r.chance(30); size_t sent = all.size(); if (cut) { size_t last = ps.back().size(); sent -= 1 + r.below((uint32_t)last); ps.pop_back(); } // the last packet is not complete
    int mode = r.below(4); uint64_t ws = r.next(); note("%zu packets, %zu octets, %s, mode %d", ps.size(), sent, cut ? "the last one cut" : "all complete", mode);
    int ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa;
    if (ls < 0 || ::bind(ls, (sockaddr*)&sa, sizeof sa) || ::listen(ls, 1) || ::getsockname(ls, (sockaddr*)&sa, &sl)) { count("no_socket"); if (ls >= 0) ::close(ls); return; }
    Network* net = new Network(); Str port = std::to_string(ntohs(sa.sin_port)); bool up = net->connect("127.0.0.1", port.c_str()); int bs = up ? ::accept(ls, nullptr, nullptr) : -1; ::close(ls);
    if (bs < 0) { count("no_connection"); delete net; return; }
    int one = 1; setsockopt(bs, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    std::thread broker([&] {
        Rng q(ws); size_t at = 0;
        while (at < sent) {
            size_t k = mode == 0 ? sent : mode == 1 && sent < 3000 ? 1 : mode == 2 ? 1 + q.below(20) + (q.chance(30) ? q.below(30000) : 0) : 1 + q.below(5) + (q.chance(50) ? q.below(2000) : 0); if (k > sent - at) k = sent - at;
            ssize_t w = ::send(bs, &all[at], k, MSG_NOSIGNAL); if (w <= 0) break; at += (size_t)w; if (mode && q.chance(sent < 5000 ? 50 : 4)) usleep(1 + q.below(150));
        }
        ::shutdown(bs, SHUT_WR);
    });
    Str bad; size_t i = 0; unsigned int cn = net->getConnectionNo();
    for (;; i++) {
        pollfd pf = {net->getSock(), POLLIN, 0}; if (::poll(&pf, 1, 20000) <= 0) { bad = "nothing more can be read after " + std::to_string(i) + " packets"; break; }
        MQTTGWPacket* p = new MQTTGWPacket(); int rc = p->recv(net, cn);
        if (i == ps.size()) { if (rc > 0) bad = "a packet of type " + std::to_string(p->getType()) + " is read after the last complete one"; delete p; kit::evals(); break; }
        if (rc <= 0) bad = "packet " + std::to_string(i) + " is not read, recv() returns " + std::to_string(rc);
        else { Bytes b((size_t)p->getPacketLength() + 16); int k = p->getPacketData(b.data()); b.resize(k > 0 ? (size_t)k : 0); if (b != ps[i]) bad = "packet " + std::to_string(i) + " (type " + std::to_string(ps[i][0] >> 4) + ", " + std::to_string(ps[i].size()) + " octets) is read as type " + std::to_string(p->getType()) + " with " + std::to_string(b.size()) + " octets"; else if (rc != (int)ps[i].size()) bad = "packet " + std::to_string(i) + " has " + std::to_string(ps[i].size()) + " octets, recv() returns " + std::to_string(rc); }
        uint64_t h = kit::fnv(&ps[i][0], 1); h = h * 31 + (uint64_t)mode * 8 + (ps[i].size() > 2097152) + (ps[i].size() > 16384) + (ps[i].size() > 128); kit::distinct(h * 4096 + ps[i].size() % 4096); kit::evals(); delete p;
        if (!bad.empty()) break;
    }
    ::shutdown(bs, SHUT_RDWR); broker.join(); linger lg = {1, 0}; setsockopt(bs, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); ::close(bs); net->close(); delete net; // a reset: no port is kept for a minute
    if (!bad.empty()) fail("%s", bad.c_str());
    count("stream_packets_checked", ps.size()); if (cut) count("streams_cut");
}

// ---- clients file and predefined topics file (C35)
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNGWClientList.h"
namespace {
Str blanks(Rng& r) { static const char* const b[] = {"", "", "", " ", "\t", "  ", " \t ", "\xe3\x80\x80"}; return b[r.below(8)]; }
Str listWord(Rng& r, int max) { Str s; for (int i = r.range(1, max); i > 0; i--) s += "abcdefghijklmnopqrstuvwxyzABCDEFG0123456789-_.:/"[r.below(48)]; return s; }
struct Listed { Str id, addr; bool secure; int kind; }; // 0 client, 1 publisher of QoS -1, 2 forwarder
}
KITPROP(lists, "clients files and predefined topics files of every shape against a line by line reading: every kind of entry, lines that are none, comments, over-long lines, white space, no final newline", 0) {
    if (chdir(kit::scratchDir().c_str())) fail("chdir");
    bool auth = r.chance(70), qm = r.chance(50), fw = r.chance(50), ag = r.chance(30); std::vector<Listed> es; std::set<Str> ids, addrs; int max = 0;
    auto comment = [&](bool tricky) { Str s = "#"; int n = r.chance(50) ? r.below(80) : r.chance(50) ? 310 + r.below(16) : r.range(80, 1500); while ((int)s.size() < n) s += "ab ,.:#\t1"[r.below(9)]; if (tricky && r.chance(70)) s += r.chance(50) ? "x" + std::to_string(r.below(99)) + ",10.9.9." + std::to_string(r.range(1, 250)) + ":4000" : "*,com/ment," + std::to_string(r.range(1, 60000)); return s; };
    Str f; int lines = r.chance(10) ? r.range(40, 120) : r.range(0, 14);
    for (int i = 0; i < lines; i++) {
        switch (r.below(10)) {
        case 0: f += comment(true); break;
        case 1: f += blanks(r) + blanks(r); break;
        case 2: { static const char* const no[] = {"", "10.1.1.1", "10.1.1.1:", "10.1.1.1:0", "10.1.1.300:4000", ":4000", "nowhere:1883", "10.1.1.1:70000", "10.1.1.1:65536", "10.1.1.1:-5", "10.1.1.1:99999999999", "10.1.1.1:4294967297", "secureConnection"}; f += "no" + std::to_string(i) + blanks(r) + "," + blanks(r) + no[r.below(13)] + (r.chance(30) ? ",secureConnection" : ""); break; }
        default: {
            Listed e; e.id = listWord(r, r.chance(10) ? 64 : 20); if (!es.empty() && r.chance(20)) { e.id = es[r.below(es.size())].id; if (r.chance(50)) e.id += "x"; else e.id.pop_back(); }
            if (r.chance(15)) { static const char* const w[] = {"QoS-1", "forwarder", "secureConnection", "unstableLine", "*"}; e.id = Str(w[r.below(5)]) + (r.chance(80) ? e.id.substr(0, 20) : ""); } // words that mean something after the address
            if (e.id == "*") e.id = "**"; bool same = !es.empty() && r.chance(4); if (same) e.id = es[r.below((uint32_t)es.size())].id; // one id, two addresses
            if (e.id.empty() || e.id[0] == '#' || (!ids.insert(e.id).second && !same)) { f += comment(false); break; }
            do { e.addr = std::to_string(r.range(1, 223)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + ":" + std::to_string(r.chance(20) ? (r.chance(50) ? 65535 : 1) : r.range(1, 65535)); if (!es.empty() && r.chance(30)) { Str o = es[r.below(es.size())].addr; e.addr = o.substr(0, o.find(':') + 1) + std::to_string(r.range(1, 65535)); if (r.chance(60)) { unsigned q[4]; sscanf(o.c_str(), "%u.%u.%u.%u", q, q + 1, q + 2, q + 3); q[r.below(4)] ^= 1u << r.below(8); if (q[0] < 1 || q[0] > 223) q[0] = 7; e.addr = std::to_string(q[0]) + "." + std::to_string(q[1]) + "." + std::to_string(q[2]) + "." + std::to_string(q[3]) + o.substr(o.find(':')); } } } while (!addrs.insert(e.addr).second);
            e.secure = r.chance(25); bool q = r.chance(25), w = r.chance(25), u = r.chance(25); e.kind = w && fw ? 2 : q && qm ? 1 : 0;
            std::vector<Str> op; if (e.secure) op.push_back("secureConnection"); if (q) op.push_back("QoS-1"); if (w) op.push_back("forwarder"); if (u) op.push_back("unstableLine"); for (size_t k = op.size(); k > 1; k--) std::swap(op[k - 1], op[r.below((uint32_t)k)]);
            f += (r.chance(20) ? blanks(r) : "") + e.id + blanks(r) + "," + blanks(r) + e.addr + blanks(r); for (auto& o : op) f += "," + blanks(r) + o + blanks(r);
            if (r.chance(10)) f += Str(r.range(200, 700), ' '); if (e.kind != 2) max++; es.push_back(e); }
        }
        if (i + 1 < lines || r.chance(70)) f += r.chance(15) ? "\r\n" : "\n";
    }
    FILE* fp = fopen("clients.conf", "wb"); fwrite(f.data(), 1, f.size(), fp); fclose(fp);
    // topics: of everybody, of listed clients, of others
    std::map<std::pair<Str, int>, Str> ts; std::map<Str, std::set<Str>> names; Str t; lines = r.range(0, 20); std::vector<Str> who = {"*"}; for (auto& e : es) if (who.size() < 5 && e.kind != 2) who.push_back(e.id); who.push_back("other"); if (r.chance(30)) who.push_back("*" + listWord(r, 3));
    for (int i = 0; i < lines; i++) {
        Str id = who[r.below((uint32_t)who.size())], name = listWord(r, r.chance(10) ? 120 : 25); int num = r.chance(40) ? r.range(1, 10) : r.chance(20) ? (r.chance(50) ? 65535 : 256) : r.range(1, 65535);
        switch (r.below(8)) {
        case 0: t += comment(true); break;
        case 1: t += blanks(r); break;
        case 2: { static const char* const no[] = {",", ",0", ",65536", ",99999999999", ",x", "", ",,"}; t += id + "," + name + no[r.below(7)]; break; }
        default: if (ts.count({id, num}) || !names[id].insert(name).second || names[id].size() > 50) { t += comment(false); break; } ts[{id, num}] = name; t += id + blanks(r) + "," + blanks(r) + name + blanks(r) + "," + blanks(r) + std::to_string(num) + blanks(r); if (r.chance(10)) t += Str(r.range(200, 700), '\t');
        }
        if (i + 1 < lines || r.chance(70)) t += r.chance(15) ? "\r\n" : "\n";
    }
    fp = fopen("topics.conf", "wb"); fwrite(t.data(), 1, t.size(), fp); fclose(fp);
    note("authentication %d QoS-1 %d forwarder %d aggregating %d\n%s\n--- topics\n%s", auth, qm, fw, ag, f.c_str(), t.c_str());
    std::set<Str> noClient; bool listedAll = auth; Gateway* g = new Gateway(); GatewayParams* p = g->getGWParams(); p->clientAuthentication = auth; p->qosMinus1 = qm; p->forwarder = fw; p->aggregatingGw = ag; p->maxClients = max + 2; p->clientListName = strdup("clients.conf"); p->predefinedTopicFileName = strdup("topics.conf"); p->gatewayName = strdup("theGateway");
    try { g->getClientList()->initialize(ag); g->getAdapterManager()->initialize(p->gatewayName, ag, fw, qm); g->getClientList()->setPredefinedTopics(ag); } catch (Exception& e) { fail("the start is refused: %s", e.what()); }
    // every sender of the file, and nobody else
    int have = 0, want = 0; ClientList* cl = g->getClientList(); ForwarderList* fl = g->getAdapterManager()->getForwarderList();
    for (int i = 0; i < cl->getClientCount(); i++) { Client* c = cl->getClient(i); SensorNetAddress none; if (c && !c->getSensorNetAddress()->isMatch(&none)) have++; }
    for (auto& e : es) {
        SensorNetAddress a; Str s = e.addr; if (a.setAddress(&s) != 0) fail("address '%s' is refused", e.addr.c_str()); Client* c = cl->getClient(&a); Forwarder* fo = fl ? fl->getForwarder(&a) : nullptr; bool here = e.kind == 1 || (e.kind == 0 && auth); kit::evals();
        if (e.kind == 2 ? !fo || Str(fo->getId()) != e.id : fo != nullptr) fail("%s at %s is %s a forwarder, the file says otherwise", e.id.c_str(), e.addr.c_str(), fo ? "" : "not");
        if (!here) { if (c) fail("%s at %s is in the list of clients", e.id.c_str(), e.addr.c_str()); continue; }
        want++; if (!c) fail("%s at %s is not in the list of clients", e.id.c_str(), e.addr.c_str());
        if (Str(c->getClientId()) != e.id) fail("the client at %s is '%s', the file says '%s'", e.addr.c_str(), c->getClientId(), e.id.c_str());
        if (c->isSecureNetwork() != e.secure) fail("%s is %s secureConnection", e.id.c_str(), e.secure ? "without" : "with");
        if (c->isQoSm1() != (e.kind == 1)) fail("%s is %s publisher of QoS -1", e.id.c_str(), e.kind == 1 ? "no" : "a");
        if (c->isAggregated() != (e.kind == 0 && ag)) fail("%s is %s aggregated", e.id.c_str(), e.kind == 0 && ag ? "not" : "");
        kit::distinct(kit::fnv(e.id.data(), e.id.size()) + e.kind * 2 + e.secure);
    }
    if (have != want) fail("%d clients with addresses are in the list, the file has %d", have, want);
    // topics
    auto check = [&](Topics* tp, const Str& id, Client* c) { if (!tp) return; int n = 0; for (auto& x : ts) if (x.first.first == id) { n++; MQTTSN_topicid ti; memset(&ti, 0, sizeof ti); ti.type = MQTTSN_TOPIC_TYPE_PREDEFINED; ti.data.id = (uint16_t)x.first.second; Topic* q = tp->getTopicById(&ti); kit::evals(); if (!q || *q->getTopicName() != x.second) fail("predefined id %d of %s is %s, the file says %s", x.first.second, id.c_str(), q ? q->getTopicName()->c_str() : "unknown", x.second.c_str()); kit::distinct(kit::fnv(x.second.data(), x.second.size()) + x.first.second); }
        if (tp->getCount() != n) fail("%s has %d predefined topics, the file has %d", id.c_str(), tp->getCount(), n); };
    check(g->getTopics(), "*", nullptr);
    for (auto& id : who) if (id != "*") { MQTTSNString ms = MQTTSNString_initializer; ms.cstring = (char*)id.c_str(); Client* c = cl->getClient(&ms); bool has = false; for (auto& x : ts) if (x.first.first == id) has = true; kit::evals(); if (c) check(c->getTopics(), id, c); else if (has && !auth) fail("the predefined topics of %s are lost", id.c_str()); }
    count("client_lines", es.size()); count("topic_lines", ts.size()); kit::sample(std::to_string(es.size()) + " entries, " + std::to_string(ts.size()) + " topics");
    delete g; theProcess = nullptr;
}
