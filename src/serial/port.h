// Serial ports of the XBee and LoRaLink sensor networks: a simulated tty whose received bytes are a script with pauses.
#pragma once
#include "../kit/kit.h"
#include <functional>
namespace port {
enum { GAP = -1, FD0 = 900 };
struct Ev { int port, v; };                 // byte v of port, or a pause
void reset();
void rx(int port, const Bytes& b);          // append bytes
void gap();                                 // append a pause: a select times out once
bool idle();                                // everything was consumed
size_t pending();
Bytes take(int port);                       // bytes written since the last call
extern std::function<bool(bool first)> onWait; // the gateway waits for a response to what it wrote; one thing of the other thread per call, false: nothing more happens in time
extern int flushMode;                       // how many of the bytes up to the next pause a flush discards: 0 none, 1 all, 2 random
extern Rng* rng;
extern int burst;                           // how many bytes ahead are already in the driver's buffer
extern uint64_t reads, gaps, flushes, waits;
}
