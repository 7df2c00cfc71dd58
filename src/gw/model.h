// Reference model of what sensor clients and broker may observe; drives the workload and states the expectations.
#pragma once
#include "world.h"

struct Mix { // weights of the operations
    int pub = 0, pubUnknown = 0, sub = 0, subBad = 0, unsub = 0, reg = 0, down = 0, downNew = 0, downReject = 0, downBig = 0, progress = 0, ping = 0;
    int disc = 0, reconnect = 0, takeover = 0, steal = 0, rejectConn = 0, refuse = 0, will = 0, brokerClose = 0, probe = 0, stranger = 0;
    int sleep = 0, wake = 0, wakeConnect = 0, downSleep = 0, wakeRace = 0, wakeSlow = 0, resend = 0, forget = 0, search = 0, willUpd = 0, willStray = 0, badFrame = 0;
    int idlePct = 0, idleMax = 1000; // chance of letting time pass after a round, seconds
    bool full = false;        // up to and beyond the limit of the topic table
    bool split = false;       // broker packets in pieces
    int attack = 0, brokerAttack = 0; // operations of clients and connections nobody models
    int batch = 6;            // operations per round (1: one at a time)
    bool shortTopics = true, predef = true, longNames = true, longIds = false;
    int maxPayload = 1015;
    int maxTopics = 42;
    int prefill = 2;          // topics registered after connecting
    Str claim;                // properties that also break when the workload diverges
};
struct Down { Str topic; int qos, mid; Bytes data; bool retain, dup; };
struct MClient {
    enum St { NEW, DISC, ACTIVE, ASLEEP, AWAKE, CONNECTING, ORPHAN };
    Str id; NetAddr a; St st = NEW; int conn = -1; bool clean = true, fwd = false, secure = false, noTrust = false; /* the gateway has no reason to trust any broker */ int ka = 60;
    std::map<Str, int> idOf; std::map<int, Str> nameOf; // normal ids the client was told
    std::set<Str> table;                                // names the gateway has given an id (accepted or not)
    std::set<Str> tainted;                              // names whose SUBSCRIBE was rejected
    std::vector<Str> filters;                           // accepted wildcard filters
    std::map<int, Str> predef; std::set<int> predefUsed, predefNew; // own predefined ids; ids used in this session
    std::set<Str> expectReg; std::set<Str> rejectReg;   // names for which REGISTER may come
    std::vector<Down> stored; int conns = 0;
    struct Pend { int kind; int mid; int tid; Str name; int qos; int type; Down d; int rnd = -1; bool maybe = false; }; // rnd: round in which it was touched
    std::vector<Pend> pend;
    enum { U1, U2A, U2B, U2C, D1, D2A, D2B, D2C, SUBP, UNSUBP, PING };
    std::map<int, Str> regMid;                          // REGISTERs we sent: mid -> name (answered by REGACK)
    std::set<int> gwRegMid; std::map<Str, int> regOut;  // REGISTERs of the gateway not yet answered
    std::set<int> recent;                               // message ids released in this round
    bool awakePing = false, slow = false; int autoPings = 0; // slow: the broker has not answered the PINGREQ of the wake-up yet
    bool up() const { return st == ACTIVE || (st == AWAKE && slow); }
    Str rtag;                                           // property of the operation that changes the state of the client in this round
    struct MaybeDown { Down d; bool delivered, acked; }; std::vector<MaybeDown> maybeDown; std::set<int> maybeReg; // the topic table may be full: rejected or served, nothing between
    std::set<int> oldIds; int forgotten = 0;            // ids of an earlier session; exchanges given up
    Str sessTag;                                        // properties tied to this client (forwarded, ...)
    // pending MQTT CONNECT
    bool wantConnect = false; mq::Pkt connect; std::vector<mq::Pkt> before; // CONNECTs overtaken by the last one
    Str connTag; int oldConn = -1;
    int nextBrokerMid = 1;
};
struct Model {
    World& w; Rng& r; Mix m; std::vector<MClient*> cs; std::set<NetAddr> used; std::map<NetAddr, MClient*> byAddr; std::map<Str, MClient*> byId; std::map<int, MClient*> byConn;
    std::map<int, Str> common; // predefined for all
    std::set<Str> ignoreId; std::map<int, int> reuse;
    std::vector<NetAddr> fwds; std::vector<Bytes> nodes; void place(MClient& c); // forwarders and node ids in use
    std::map<Bytes, Str> unknownSent; // payloads published with ids that name nothing
    bool resetNext = false; int refuseNext = 0, badTls = 0; int rounds = 0, regBurst = 0; bool sawGwinfo = false;
    Model(World& w, const Mix& m);
    // generators
    NetAddr addr(); Bytes bytes(int n); Str word(int n); Bytes payload(int max = -1); Str name(int maxLen = 60); Str shortName(); int msgId(); Str clientId();
    MClient* add(const Str& id, const NetAddr& a, bool behindFwd = false); MClient* addFwd(const Str& id);
    // workload
    void connectAll(); void connect(MClient& c, bool clean = true);
    void round(int k = -1); void runRounds(int n);
    std::map<MClient*, int> busy; // in this round
    std::vector<std::vector<std::function<void()>>> src; std::map<std::pair<int, NetAddr>, int> srcOf;
    void viaSn(const NetAddr& a, const sn::Pkt& p); void viaSn(MClient& c, const sn::Pkt& p) { viaSn(c.a, p); }
    void viaMq(int conn, const mq::Pkt& p); void via(int kind, const NetAddr& key, std::function<void()> f);
    std::map<int, std::vector<Bytes>> splitBuf; Rng sr{1}; int pauseLeft = 3500; void cut(int conn); // packets to be cut into pieces
    struct Attacker { NetAddr a; std::vector<Str> ids; bool fwd = false; }; std::vector<Attacker> att; bool opAttack(); bool opBrokerAttack(); Bytes attackPacket(Attacker& t); Bytes brokerBytes(int kind); Rng ar{1}; std::vector<NetAddr> strays; bool brokerEvil = false; int attackBudget = 0, stallBudget = 0; Bytes mutate(Bytes b);
    void hostile(int n); static bool oddTopic(const Str& t);
    void merge(); void flush(); bool stepOps = true;
    Str T(MClient& c, const char* t) { Str s = t; if (!c.sessTag.empty()) s += "," + c.sessTag; if (!m.claim.empty()) s += "," + m.claim; return s; }
    // operations: false if not possible now
    bool opPub(MClient& c); bool opPubUnknown(MClient& c); bool opSub(MClient& c); bool opSubBad(MClient& c); bool opUnsub(MClient& c); bool opReg(MClient& c);
    bool opDown(MClient& c); bool opDownNew(MClient& c, bool reject); bool opDownBig(MClient& c); bool opProgress(MClient& c, int which = -1); bool opPing(MClient& c);
    bool opDisc(MClient& c); bool opReconnect(MClient& c); bool opTakeover(MClient& c); bool opSteal(MClient& c); bool opRefuse(MClient& c); bool opWill(MClient& c); bool opBrokerClose(MClient& c); bool opProbe(MClient& c); bool opStranger();
    bool opSearch(); bool opWillUpd(MClient& c); bool opWillStray(MClient& c); bool opBadFrame(); bool opSleep(MClient& c); bool opWake(MClient& c, bool race, bool slow = false); bool opWakeEnd(MClient& c); bool opResend(MClient& c); bool opForget(MClient& c); bool opWakeConnect(MClient& c); bool opDownSleep(MClient& c);
    bool opConnack(MClient& c, int rc);
    void twice(MClient& c);
    void startConnect(MClient& c, bool clean, bool will); // sends CONNECT ... and expects the MQTT CONNECT
    void finishConnect(MClient& c, int rc);
    Str pickTopic(MClient& c, int& tit, int& tid, bool uplink); // a topic the client may publish to / the broker may publish on
    Down mkDown(MClient& c, const Str& topic, int qos = -1);
    void expDown(MClient& c, const Down& d, int stream); void owe(MClient& c, const Down& d);
    void lost(MClient& c); // broker connection gone
    void closeOld(MClient& c, const char* tag); void brokerDrops(int cn, bool reset);
    int freeMid(MClient& c); int freeBrokerMid(MClient& c);
    void newSession(MClient& c, bool clean);
    bool room(MClient& c) { return tableUse(c) < m.maxTopics; }
    int tableUse(MClient& c) { return (int)c.table.size() + (int)c.predefUsed.size() + (int)c.predef.size(); }
    // online judgement
    bool snOut(SnOut& o); bool mqOut(MqOut& o); Str meaning(MClient& c, const sn::Pkt& p);
    void told(MClient& c, const Str& name, int id, const char* how);
};
Bytes nodeId(Rng& r, int i);
bool filterMatch(const Str& filter, const Str& name);
Str canaryId(Rng& r, int i);
