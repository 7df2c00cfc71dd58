"""Which workloads decide which property. workload: (harness, scenario, share of the time, cases in the quick tier)."""
CHECKS = {}
def c(id, technique, note, rule, workloads, **kw):
    CHECKS[id] = dict(technique=technique, note=note, rule=rule, workloads=workloads, **kw)
KITRULE = 'one evaluation is one oracle comparison on the real code; distinct counts the different (message, fields class, length class) situations by hash'
c('C01', 'ASan/UBSan + reference-codec oracle over generated messages', 'Every serialiser/deserialiser of the library, run on generated messages of every type with lengths centred on every boundary, compared byte by byte and field by field with an independent MQTT-SN codec.', KITRULE, [('codec', 'serialize', 1, 2000000)], quick_sec=45)
c('C02', 'ASan with exact poisoned buffers, every short buffer length', 'Every serialiser into heap buffers of every length around the encoded size, both sides poisoned; return value compared with fits / does not fit.', KITRULE, [('codec', 'bounds', 1, 1000000)], quick_sec=45)
c('C03', 'ASan/UBSan fuzzing with exact poisoned buffers and view checks', 'Every deserialiser on arbitrary, mutated and truncated packets at every declared length; returned views must lie in the packet.', KITRULE, [('codec', 'decode', 1, 700000)], quick_sec=45)
c('C04', 'ASan + scripted transport oracle', 'The packet readers on scripted transports (whole, short, long, failing deliveries); result compared with the delivered bytes.', KITRULE, [('codec', 'readers', 1, 5000000)], quick_sec=30)
GWRULE = 'one evaluation is one packet of the real gateway (or one absence) compared with the reference model; distinct counts different thread schedules of the gateway observed (hash of the switch sequence)'
def g(id, note, workloads, more=[], **kw):
    kw['extra'] = tuple(m[0] for m in more) # harnesses on single classes: the property is decided by the gateway as a whole
    c(id, 'trace monitor over the real gateway under a serialised scheduler, virtual time and fake UDP/TCP, with ASan/UBSan', note, GWRULE, [('gwsim', s, w, n) for s, w, n in workloads] + more, **{**dict(quick_sec=30, thorough_sec=600), **kw})
g('C05', 'Arbitrary, mutated and well-formed packets from addresses nobody knows, from forwarders and under the ids of other clients, next to a modelled workload; every violation counts that disappears without the attackers. The same with an aggregating gateway, where the requests of both are told apart on the one broker connection.', [('hostilesn', 3, 1500), ('aggrhostile', 1, 500)])
g('C06', 'Brokers that send arbitrary, mutated, truncated and misplaced MQTT packets on their own connections, next to a modelled workload; violations that disappear without them.', [('hostilemq', 1, 1500)])
g('C07', 'Broker streams cut at every kind of place with pauses; the same case with whole packets is the reference. The packet reader on real TCP connections: streams of packets with lengths of one to four octets in pieces of every size, compared with what is read.', [('segments', 1, 1200)], [('unit', 'brokerstream', 1, 6000)])
g('C08', 'Every uplink PUBLISH must give exactly one MQTT PUBLISH with the same content on the right connection, everything else is a violation.', [('uplink', 3, 2400), ('isolation', 1, 600), ('predefined', 1, 400)])
g('C09', 'Every broker PUBLISH must give exactly one MQTT-SN PUBLISH whose topic id the client was told; REGISTER exchanges accepted, delayed, rejected.', [('downlink', 3, 2400), ('isolation', 1, 600), ('predefined', 1, 400), ('sleeping', 1, 600)])
g('C10', 'Acknowledgement exchanges of every kind in random interleaving; one for one with ids and codes.', [('qosflow', 4, 2400), ('sleeping', 1, 600), ('aggregate', 1, 600)])
g('C11', 'Ids given in REGACK, SUBACK and REGISTER are recorded and compared over the session, up to and beyond the table limit.', [('topicids', 3, 2000), ('downlink', 1, 600), ('predefined', 1, 400), ('sleeping', 1, 400)], [('unit', 'topictable', 1, 1500)])
g('C12', 'Many clients with confusable ids and reused addresses; every packet must appear at its own client or connection only.', [('isolation', 4, 2000), ('aggregate', 1, 600)])
g('C13', 'Connects, disconnects, refusals, broker failures and packets of clients that are not connected.', [('lifecycle', 4, 2400), ('wills', 1, 600)])
g('C14', 'Connects with and without will, interrupted and repeated; will fields of the MQTT CONNECT compared.', [('wills', 4, 2400), ('lifecycle', 1, 600)])
g('C15', 'Sleep, messages while asleep, wake-up by PINGREQ and CONNECT in virtual time.', [('sleeping', 4, 2400), ('isolation', 1, 600), ('aggregate', 1, 400)])
g('C16', 'Generated client lists; unlisted ids, foreign addresses, exchanged ids; more clients than the maximum.', [('authentication', 1, 1200), ('maxclients', 1, 1200)])
g('C17', 'Clients behind forwarders with arbitrary node ids; every violation is counted only if the same case with direct clients passes.', [('forwarder', 1, 1600)])
g('C21', 'Generated predefined topic files; listed and unlisted ids used by listed and other clients.', [('predefined', 1, 1200)])
g('C24', 'SEARCHGW mixed with traffic, ADVERTISE intervals measured in virtual time.', [('discovery', 1, 1200)])
g('C26', 'PINGREQ and PINGRESP mixed with other traffic of several clients.', [('pings', 4, 2400), ('sleeping', 1, 600), ('aggregate', 1, 400)])
g('C18', 'Registered QoS -1 publishers and look-alikes; the connection of the proxy is accepted late, rejected, refused, lost, idle; every message must be published exactly once on it and every packet to the publishers is a violation.', [('qosminus1', 1, 2400)])
g('C19', 'All clients on the one broker connection: shared and overlapping filters, message ids of both sides, all QoS, sleepers, new sessions, lost and refused connections; every copy and every acknowledgement is predicted.', [('aggregate', 1, 2400)], [('unit', 'msgidtable', 1, 1500)])
c('C28', 'ASan/UBSan + frame-level monitor over scripted serial lines', 'The XBee sensor network on a simulated tty: every reading of the received octets as an API frame is computed independently and compared, in order, with what read() returns; every transmitted frame is decoded and the result of the send compared with the statuses the modem gave.', KITRULE, [('xbee', 'xbee', 8, 60000), ('xbee', 'xbeeaddr', 1, 60000)], quick_sec=40, thorough_sec=600)
c('C29', 'ASan/UBSan + frame-level monitor over scripted serial lines', 'The LoRaLink sensor network on two simulated ttys with interleaved arrivals: received packets compared with an independent reading of the octets of each modem; transmitted frames decoded and the result of the send compared with the responses.', KITRULE, [('lora', 'lora', 1, 60000)], quick_sec=40, thorough_sec=600)
c('C30', 'trace monitor over the real gateway, built for UDP over IPv6, under a serialised scheduler, virtual time and fake UDP/TCP, with ASan/UBSan', 'The gateway simulation rebuilt with the udp6 sensor network: every address of the scenarios is an IPv6 address that differs from others in single octets; the packet-level models are those of the other properties.', GWRULE, [('gwsim6', s, 1, n) for s, n in (('isolation', 600), ('authentication', 600), ('forwarder', 600), ('discovery', 300), ('qosminus1', 300), ('aggregate', 300), ('lifecycle', 500))], quick_sec=40, thorough_sec=900, claims_all=True)
g('C31', 'Clients with and without secureConnection against a broker that speaks TLS with the real OpenSSL on both ends: versions, tickets, resumption, shared and split records, key updates, ends with and without notice, impostors with thirteen kinds of certificates; the packet models of the other properties judge what is served over it; the aggregater and the QoS -1 proxy with their secure and other connections.', [('tls', 4, 2000), ('tlsqosminus1', 1, 400), ('tlsaggregate', 1, 600)], quick_sec=40)
c('C20', 'ASan/UBSan + reference matcher over enumerated and generated filters and names', 'Every filter of up to six characters over {a,b,/,+,#} against every name of up to six characters over {a,b,/}; long random pairs; tables of filters.', KITRULE, [('unit', 'filters', 2, 150000), ('unit', 'filtertable', 1, 40000)], quick_sec=30, thorough_sec=300)
c('C22', 'ASan/UBSan + line-by-line reference reading of generated configuration files', 'Files of every shape: comments, blank lines, prefixes of names, lines without =, lines of exactly the limit, over-long comments, no final newline.', KITRULE, [('unit', 'params', 1, 200000)], quick_sec=30, thorough_sec=300)
c('C35', 'ASan/UBSan + line-by-line reference reading of generated clients and predefined topics files', 'Files of every shape: every combination of options, invalid addresses and numbers, ids that are prefixes of others, comments and lines longer than any buffer, white space of every kind, no final newline; clients, forwarders and topics of the real Gateway object compared with the reference.', KITRULE, [('unit', 'lists', 1, 15000)], quick_sec=40, thorough_sec=600)
c('C34', 'ASan/UBSan + stream model over simulated RFCOMM sockets', 'The RFCOMM sensor network on simulated Bluetooth sockets: devices connect, send packets whose octets arrive in any pieces, stop reading, leave and are replaced; packets read compared with what each device sent, octets sent with what each device must get, every use of a descriptor checked.', KITRULE, [('rfcomm', 'rfcomm', 1, 60000)], quick_sec=40, thorough_sec=600)
c('C32', 'ASan/UBSan + offline order/exactly-once checker over the text two real processes exchange, guard pages around the shared segments', 'The real Process (the gateway\'s side) and the real Logmonitor in processes of their own on stand-ins for System V shared memory and named semaphores: bursts, laps of the ring, overruns, several threads, slow, interrupted, killed and restarted monitors, gateways stopped, killed while logging and started again, from the directory of the configuration and from another; what the monitor prints is compared octet by octet with what was logged.', 'one evaluation is one comparison of the text printed since the last with the text logged; distinct counts different histories of bursts', [('logring', 'logshared', 1, 3000)], quick_sec=40, thorough_sec=600)
c('C23', 'ThreadSanitizer and ASan with injected delays + offline exactly-once/order/limit checker over recorded histories', 'Producers and consumers on real threads with delays around every lock and semaphore call; recorded intervals of post and wait are checked for exactly-once, order, limit, wake-up and false time-outs; exact sequences single-threaded; the container against a list.', KITRULE, [('quetsan', 'eventq', 3, 12000), ('queasan', 'eventq', 3, 12000), ('queasan', 'eventqseq', 1, 8000), ('unit', 'container', 1, 50000)], quick_sec=40, thorough_sec=600)
c('C33', 'ThreadSanitizer over the whole gateway on real threads with injected delays', 'The real gateway on loopback with a broker, TLS and up to 12 clients, built with ThreadSanitizer; delays around every lock, semaphore and socket call; every report of a data race, lock-order inversion or misused lock is a violation, and a gateway that does not end.', 'one evaluation is one lock, semaphore or stream operation observed by the race detector; distinct counts different short interleavings: three consecutive operations of which threads at which places', [('threads', 'threads', 1, 400)], quick_sec=40, thorough_sec=600)
g('C25', 'SIGINT at a random scheduling point of random configurations and workloads (idle, busy, flooded, event queue full, broker silent or refusing), with starved threads and time passing while threads run; main must return in time and the static objects be destroyed without a memory error. The same on real threads and sockets with a broker that has stopped reading, accepting or answering the TLS handshake.', [('shutdown', 3, 1200), ('shutdownfull', 1, 1200)], [('threads', 'stalled', 1, 16)], quick_sec=60)
g('C27', 'Random cycles of complete exchanges, refusals, lost connections and malformed packets, repeated; live heap bytes (allocator hooks) and open sockets of the gateway compared at the same point of every cycle.', [('leak', 1, 800)])
