// The world around the gateway: sensor clients, broker, expectations, verdicts.
#pragma once
#include "../sim/sim.h"
#include "../refcodec.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Cfg {
    int gwId = 1; Str gwName = "GW"; int maxClients = 30, keepAlive = 900, mqttVersion = 0;
    bool auth = false, predef = false, aggr = false, fwd = false, qosm1 = false;
    Str login, password, host = "broker.test", port = "1883";
    std::vector<Str> clients, topics; bool clientsFile = false;
    Str extra; bool tls = false, clientCert = false; int noCa = 0; /* 1: none configured, 2: not the one of the broker */ Str securePort = "8883"; // TLS to the broker
};
// a keyword of a line of the clients file: after the address or at the end, whatever other keywords there are
inline void keyword(Str& line, Rng& r, const char* k) {
    size_t p = line.find(','), q = p == Str::npos ? p : line.find(',', p + 1); Str s = (r.chance(20) ? ", " : ",") + Str(k);
    if (q != Str::npos && r.chance(50)) line.insert(q, s); else line += s;
}

struct SnOut { int64_t t; NetAddr to; Bytes raw; sn::Pkt p; Str meaning; bool done = false; }; // meaning: topic name of a PUBLISH; done: judged when it was sent
struct MqOut { int64_t t; int conn; mq::Pkt p; Bytes raw; bool done = false; };
struct BConn { int id; Bytes out; size_t parsed = 0; int npkts = 0; bool open = true, refused = false, badTls = false; };

struct Shared; // result block shared with the parent
struct World : sim::Driver {
    Cfg cfg; Rng r{1}; Str tag; Str prop;
    std::vector<SnOut> snLog; std::vector<BConn> conns; std::vector<MqOut> mqLog;
    size_t snChecked = 0, mqChecked = 0; bool alt = false; // alt: second run of a differential scenario
    bool noAdvert = false; // time passes in leaps, intervals cannot be judged
    bool hostile = false; std::function<void(MqOut&)> onForeign; // hostile: there are clients nobody models; their broker connections
    int64_t pauseUntil = 0; void pauseFor(int64_t us); // nothing of `later` is injected before
    std::map<int, Bytes> held; std::set<int> midPacket; void sendPiece(int conn, const Bytes& b, bool boundary); // a broker packet in pieces
    int preempt = 0, segMode = 0; void policy(int stepPermille); // scheduling style of the case
    Str connectPort; std::function<int(int)> connectPolicy; // conn id -> 0/errno/-1: reset/1000+certificate/2000: not TLS
    int settleUs = 2600000;
    bool mainReturned = false; int mainRc = 0; bool stuckInput = false;
    std::vector<std::function<void()>> later; // injected at random scheduling points
    std::vector<Str> trace;
    int evCount = 0;
    // --- driving
    void settle();                       // run until nothing happens for settleUs of virtual time
    void settleFast();                   // run until idle with no unread input
    void advance(int64_t us);            // let virtual time pass
    void waitMain(int64_t maxUs);
    void sigint();                       // SIGINT arrives now
    [[noreturn]] void exitMain();        // main has returned: the process ends, its static objects are destroyed; then the case has passed
    int64_t sigAt = -1; bool exiting = false;
    [[noreturn]] void pass();
    [[noreturn]] void fail(const Str& tag, const Str& msg);
    void failIf(bool c, const Str& t, const Str& m) { if (c) fail(t, m); }
    void note(const char* fmt, ...);
    void count(const char* what, uint64_t n = 1); // evidence counters
    void state(uint64_t h);              // distinct abstract state seen
    // --- stimuli
    void sendSn(const NetAddr& from, const sn::Pkt& p);
    void sendRaw(const NetAddr& from, const Bytes& b, bool mc = false);
    void sendMq(int conn, const mq::Pkt& p);
    void sendMqRaw(int conn, const Bytes& b);
    // --- expectations. Within a stream of one destination packets have to come in order; streams are independent.
    struct ESn { sn::Pkt p; Str tag; int stream; bool optional = false; bool byName = false; Str topic; bool last = false; int* capId = nullptr; std::function<Str(const sn::Pkt&)> also; };
    struct EMq { mq::Pkt p; Str tag; int stream; bool optional = false; int* capMid = nullptr; };
    std::map<NetAddr, std::vector<ESn>> wantSn;
    std::map<int, std::vector<EMq>> wantMq;
    std::set<int> wantClose, mayClose; Str wantCloseTag;
    int stream = 0;
    ESn& expSn(const NetAddr& a, const sn::Pkt& p, int* cap = nullptr, std::function<Str(const sn::Pkt&)> also = nullptr);
    ESn& expPub(const NetAddr& a, const Str& topic, int mid, int qos, const Bytes& data, bool retain, bool dup); // PUBLISH whose id means `topic` to the client
    EMq& expMq(int c, const mq::Pkt& p);
    void expClose(int c) { wantClose.insert(c); wantCloseTag = tag; }
    // --- judged at the moment of output; true: not to be judged by check()
    std::function<bool(SnOut&)> onlineSn; std::function<bool(MqOut&)> onlineMq;
    std::function<Str(const SnOut&)> tagSn; std::function<Str(const MqOut&)> tagMq; std::function<void(int)> onOpen; // properties an unexpected packet breaks
    int64_t lastAdv = -1; bool lastAdvSeen = false; void advert(bool seen);
    std::set<int> closedSeen, closedChecked; std::set<int> ignoreConn; std::set<NetAddr> ignoreAddr;
    // --- forwarders: clients behind one have a virtual address
    std::map<NetAddr, std::pair<NetAddr, Bytes>> behind; std::map<std::pair<NetAddr, Bytes>, NetAddr> virt; std::set<NetAddr> fwdAddr;
    void putBehind(const NetAddr& virtualAddr, const NetAddr& fwd, const Bytes& node);
    std::vector<std::pair<Str, Str>> extra; // deviations found elsewhere, reported by the next check()
    void check();                        // compare everything new with the expectations
    void run() { settle(); check(); }    // settle + check
    int lastConn() { return (int)conns.size() - 1; }
    NetAddr mcast; 
    // --- driver interface
    sim::Idle onIdle() override; void onStep() override;
    void onSnOut(const NetAddr&, const Bytes&, int) override;
    int onConnect(int, const char*, const char*) override;
    void onTcpOut(int, const Bytes&) override; void onTlsError(int, const std::string&) override; void onTcpClose(int) override;
    void onMainReturn(int) override; void onFatal(const char*, const std::string&) override;
    void flushTrace();
};
Str natTag(const sn::Pkt&); Str natTag(const mq::Pkt&);
// field-wise comparison; -1 in topicId/msgId/duration/gwId of `want` means "any"
bool sameSn(const sn::Pkt& want, const sn::Pkt& got);
bool sameMq(const mq::Pkt& want, const mq::Pkt& got);

// ---- packet builders
namespace mk {
sn::Pkt connect(const Str& id, int dur = 60, bool clean = true, bool will = false);
sn::Pkt publish(int tit, int tid, const Str& shortName, int mid, int qos, const Bytes& data, bool retain = false, bool dup = false);
sn::Pkt reg(int tid, int mid, const Str& name);
sn::Pkt regack(int tid, int mid, int rc);
sn::Pkt ack(int type, int mid, int tid = 0, int rc = 0);
sn::Pkt sub(int mid, int qos, int tit, int tid, const Str& name);
sn::Pkt unsub(int mid, int tit, int tid, const Str& name);
sn::Pkt simple(int type);
sn::Pkt disc(int dur = -1);
sn::Pkt rcp(int type, int rc);
sn::Pkt pingreq(const Str& id = "");
sn::Pkt willtopic(const Str& t, int qos, bool retain);
sn::Pkt willmsg(const Bytes& m);
mq::Pkt mpub(const Str& topic, int qos, int mid, const Bytes& data, bool retain = false, bool dup = false);
mq::Pkt mack(int type, int mid, int rc = 0);
mq::Pkt msub(const Str& topic, int qos, int mid);
mq::Pkt munsub(const Str& topic, int mid);
mq::Pkt mconnect(const Str& id, int ka, bool clean);
Bytes encap(const Bytes& node, const Bytes& inner, int ctrl = 0);
}

// ---- a scenario
// differential: a violation only counts for the property if it disappears in the alternative run (w.alt) of the case
struct Scenario { const char* name; const char* prop; void (*cfg)(Cfg&, Rng&); void (*run)(World&); const char* what; bool differential; };
extern std::vector<Scenario>& scenarios();
struct RegScenario { RegScenario(const char* n, const char* p, void (*c)(Cfg&, Rng&), void (*f)(World&), const char* what, bool diff = false) { scenarios().push_back({n, p, c, f, what, diff}); } };
#define SCENARIO(id, prop, cfgfn, ...) static void run_##id(World& w); static RegScenario reg_##id(#id, prop, cfgfn, run_##id, __VA_ARGS__); static void run_##id(World& w)
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
