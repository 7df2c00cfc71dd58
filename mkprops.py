#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that long texts stay readable)."""
import json
P=[]
G='MQTTSNGateway/src/'
K='MQTTSNPacket/src/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','MQTT-SN serialisers and deserialisers agree with the wire format, both ways',
 "For every MQTT-SN message type the packet library offers a serialiser for and all valid field values, the serialiser returns exactly the number of bytes it wrote, that number equals the packet's own length field (1-byte form up to 255 octets in total, 3-byte form above), and the bytes are the MQTT-SN v1.2 encoding of the fields. Where the library has a deserialiser for that message type, feeding it those bytes succeeds and returns every field unchanged. This includes payloads, names and client ids of every length up to the 65535-octet packet limit, in particular around the 1-byte/3-byte length boundary.",
 ['inputs'],'every message type x every valid field combination x every total length 2..65535',
 "test1 round-trips one or two hand-picked small values per message and asserts only the fields; it never compares bytes with the specification and never crosses the 255/256-octet boundary.",
 [K+'MQTTSNPacket.c',K+'MQTTSNSerializePublish.c',K+'MQTTSNDeserializePublish.c',K+'MQTTSNConnectClient.c',K+'MQTTSNConnectServer.c',K+'MQTTSNSubscribeClient.c',K+'MQTTSNSubscribeServer.c',K+'MQTTSNUnsubscribeClient.c',K+'MQTTSNUnsubscribeServer.c',K+'MQTTSNSearchClient.c',K+'MQTTSNSearchServer.c'],
 [('MQTTSNPacket_len/encode/decode length codec',K+'MQTTSNPacket.c'),('MQTTSNSerialize_* / MQTTSNDeserialize_*',K)],['return values, output buffers and output parameters of the public packet API'])
p('C02','Serialisers never write outside the caller\'s buffer',
 "No MQTT-SN serialiser ever writes a byte outside the buffer and length the caller gave it, for any field values and any buffer length. If the encoded packet does not fit into that length the serialiser reports an error (a value <= 0); if it fits exactly it succeeds.",
 ['inputs'],'every message type x all field values x every buffer length from 0 to beyond the encoded size',
 "the tests always pass a comfortably large buffer, so neither the too-short path nor the exact-fit path is ever taken.",
 [K+'MQTTSNPacket.c',K+'MQTTSNSerializePublish.c',K+'MQTTSNConnectClient.c',K+'MQTTSNConnectServer.c',K+'MQTTSNSubscribeClient.c',K+'MQTTSNSubscribeServer.c',K+'MQTTSNUnsubscribeClient.c',K+'MQTTSNUnsubscribeServer.c',K+'MQTTSNSearchClient.c',K+'MQTTSNSearchServer.c'],
 [('MQTTSNPacket_len(...) > buflen guard in each serialiser',K)],['AddressSanitizer on exact-size heap buffers'])
p('C03','Deserialisers are memory-safe and total on arbitrary bytes',
 "For any byte string and any buffer length, every MQTT-SN deserialiser returns without reading or writing outside that buffer, and every pointer/length pair it returns on success lies inside the buffer. A truncated packet, or one whose length field or field lengths are inconsistent with the bytes present, is never reported as successfully decoded with fields taken from outside the packet.",
 ['inputs'],'every byte string of every length, per deserialiser',
 "the tests only decode packets the library itself has just encoded; no malformed or truncated input is ever tried.",
 [K+'MQTTSNPacket.c',K+'MQTTSNDeserializePublish.c',K+'MQTTSNConnectServer.c',K+'MQTTSNConnectClient.c',K+'MQTTSNSubscribeServer.c',K+'MQTTSNSubscribeClient.c',K+'MQTTSNUnsubscribeServer.c',K+'MQTTSNUnsubscribeClient.c',K+'MQTTSNSearchClient.c',K+'MQTTSNSearchServer.c'],
 [('MQTTSNPacket_decode and per-deserialiser length checks',K)],['AddressSanitizer/UBSan/MemorySanitizer on exact-size heap buffers; returned views'])
p('C04','Packet readers hand out only whole packets and never leave the buffer',
 "The library's packet reader reports a packet type only if its transport callback delivered exactly one whole MQTT-SN packet (the length field, in its 1-byte or 3-byte form, equals the number of bytes delivered); the type reported is that packet's message type and the caller's buffer holds its bytes unchanged. Any other delivery (nothing, an error, fewer or more bytes than the length field says, no message type, a length that cannot be valid) gives an error value. The reader never asks for more than, and never reads or writes outside, the buffer and the bytes delivered.",
 ['inputs','schedules'],'every delivered byte string and delivery error x every buffer length',
 "no test calls the packet readers at all.",
 [K+'MQTTSNPacket.c',K+'MQTTSNPacket.h'],[('MQTTSNPacket_read / MQTTSNPacket_read_nb',K+'MQTTSNPacket.c')],['return value and buffer of the readers, requests made to the transport callback'])
p('C05','No datagram from the sensor side can crash, hang or corrupt the gateway',
 "Whatever sequence of UDP datagrams (well-formed, malformed, truncated, oversized, encapsulated, out of order) arrives from the sensor network, from any set of senders, the gateway stays alive, performs no invalid memory access or undefined behaviour, and continues to serve other well-behaved clients.",
 ['inputs','histories'],'all datagram sequences from any number of senders, in every gateway configuration',
 "no existing test feeds the gateway a single datagram; testPFW covers only queue/process/topic containers.",
 [G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWPacket.cpp',G+'MQTTSNGWEncapsulatedPacket.cpp',G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTSNGWPublishHandler.cpp',G+'MQTTSNGWSubscribeHandler.cpp',G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWClientList.cpp',G+'linux/udp/SensorNetwork.cpp'],
 [('datagram reception and dispatch',G+'MQTTSNGWClientRecvTask.cpp'),('packet decoding wrappers',G+'MQTTSNGWPacket.cpp')],['sanitizer reports, process liveness, service to a canary client'])
p('C06','No byte stream from the broker can crash, hang or corrupt the gateway',
 "Whatever bytes the broker sends on a client's connection (malformed MQTT packets, truncated or oversized lengths, unexpected types, early close, reset), the gateway stays alive, performs no invalid memory access or undefined behaviour, and continues to serve its other clients. (While a broker pauses in the middle of a packet, service may stall for the few seconds after which that connection is given up.)",
 ['inputs','histories','fault_sequences'],'all broker byte streams x connection faults x session states',
 "no existing test contains a broker.",
 [G+'MQTTGWPacket.cpp',G+'MQTTSNGWBrokerRecvTask.cpp',G+'MQTTSNGWBrokerSendTask.cpp',G+'MQTTGWConnectionHandler.cpp',G+'MQTTGWPublishHandler.cpp',G+'MQTTGWSubscribeHandler.cpp',G+'linux/Network.cpp'],
 [('MQTT packet reception and parsing',G+'MQTTGWPacket.cpp'),('per-connection receive loop',G+'MQTTSNGWBrokerRecvTask.cpp')],['sanitizer reports, process liveness, service to a canary client'])
p('C07','Broker packets are recognised independently of TCP segmentation',
 "The MQTT packets the gateway acts on are exactly those in the broker's byte stream: how TCP splits or coalesces the stream into reads never changes, drops, duplicates or reorders what is delivered to sensor clients, and never breaks the connection. (A broker that stops for more than five seconds in the middle of a packet may lose that one connection.)",
 ['inputs','schedules'],'all packet sequences x all segmentations of the byte stream',
 "no existing test opens a TCP connection, and a loopback smoke test practically always delivers a packet in a single segment.",
 [G+'MQTTGWPacket.cpp',G+'linux/Network.cpp',G+'MQTTSNGWBrokerRecvTask.cpp'],
 [('fixed header, remaining length and body reads',G+'MQTTGWPacket.cpp')],['sensor-side datagrams for the same broker stream under different segmentations'])
p('C08','Uplink PUBLISH fidelity',
 "Each PUBLISH with QoS 0, 1 or 2 a connected client sends on a topic id the gateway assigned or accepted for it (registered, predefined, or two-character short name) results in exactly one MQTT PUBLISH on that client's broker connection with the topic name the id stands for, the identical payload, and the same QoS, retain and DUP flags, and for QoS 1/2 the same non-zero message id. A PUBLISH on a topic id that is not known for the client puts nothing on any broker connection, and with QoS 1 or 2 is answered by PUBACK 'invalid topic ID' carrying the same topic id and message id.",
 ['inputs','histories'],'all payloads, topic id types, flags and message ids, after any history of registrations and publishes',
 "no existing test runs the publish path of the gateway.",
 [G+'MQTTSNGWPublishHandler.cpp',G+'MQTTSNGWPacket.cpp',G+'MQTTGWPacket.cpp',G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWBrokerSendTask.cpp'],
 [('PUBLISH translation',G+'MQTTSNGWPublishHandler.cpp'),('MQTT PUBLISH encoding',G+'MQTTGWPacket.cpp')],['MQTT bytes on the broker connection versus datagrams sent'])
p('C09','Downlink PUBLISH fidelity',
 "Each PUBLISH the broker sends on an active client's connection, on a topic matching what the client has subscribed to, results in exactly one MQTT-SN PUBLISH to that client and to no other, in the order received (a message waiting for its topic's registration may be overtaken by messages on other topics), with identical payload, QoS, retain, DUP and message id, and with a topic id that the client was told stands for that topic name (by REGACK, SUBACK, REGISTER, predefinition, or the two-character short name itself). If the client does not know an id for the name, the gateway first REGISTERs one and sends the PUBLISH once the client has accepted it; payloads that fit the gateway's packet limit (1024 octets for the MQTT-SN packet) are never truncated or altered; longer ones are dropped.",
 ['inputs','histories','schedules'],'all topics, payload sizes, flags and message ids, any history of registrations, any order of REGACKs',
 "no existing test runs the downlink path of the gateway.",
 [G+'MQTTGWPublishHandler.cpp',G+'MQTTSNGWClientSendTask.cpp',G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTSNGWPacket.cpp'],
 [('PUBLISH translation, REGISTER wait list',G+'MQTTGWPublishHandler.cpp'),('REGACK completion',G+'MQTTSNGWPublishHandler.cpp')],['datagrams per client versus MQTT packets injected'])
p('C10','Acknowledgements are translated one for one with the same message id',
 "Every PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK and UNSUBACK crossing the gateway in either direction for a connected client appears exactly once on the other side with the same message id; PUBACK and SUBACK to the client carry the topic id of the request and the granted QoS or rejection. This holds however many exchanges the client has completed before, with up to 20 outstanding at a time, and for requests that are sent again or given up and whose message id is used again.",
 ['inputs','histories'],'all interleavings of QoS 1/2 and subscribe/unsubscribe exchanges of a client, arbitrarily long histories',
 "no existing test drives a QoS handshake, let alone hundreds of them on one session.",
 [G+'MQTTGWPublishHandler.cpp',G+'MQTTSNGWPublishHandler.cpp',G+'MQTTGWSubscribeHandler.cpp',G+'MQTTSNGWSubscribeHandler.cpp',G+'MQTTSNGWTopic.cpp'],
 [('message-id to topic-id bookkeeping',G+'MQTTSNGWTopic.cpp'),('ack handlers',G+'MQTTGWPublishHandler.cpp')],['both wires'])
p('C11','Topic ids and topic names correspond one to one within a session',
 "Within a client's session a topic name is always given the same topic id, two different names never share a topic id, no id the gateway assigns is 0 or 0xFFFF, and an id not given in the session names no topic. REGISTER is always answered by exactly one REGACK with the same message id, SUBSCRIBE and UNSUBSCRIBE are forwarded with exactly the topic name meant and, for SUBSCRIBE, the same QoS, and running out of topic ids yields a rejection, never a wrong id or a crash.",
 ['inputs','histories'],'all sequences of REGISTER, SUBSCRIBE and broker PUBLISH over arbitrarily many topic names',
 "TestTopics adds a handful of names to the container directly; nothing checks ids across messages or at the table limit.",
 [G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWPublishHandler.cpp',G+'MQTTSNGWSubscribeHandler.cpp',G+'MQTTGWPublishHandler.cpp'],
 [('Topics::add/getNextTopicId',G+'MQTTSNGWTopic.cpp'),('REGISTER/SUBSCRIBE handling',G+'MQTTSNGWPublishHandler.cpp')],['REGACK/SUBACK/REGISTER ids on the wire'])
p('C12','Each client id is its own session; clients never see each other\'s traffic',
 "Clients with different client ids always use different broker connections carrying their own client id, whatever the ids are (prefixes of each other, equal length, reused addresses, reconnecting from a new address). Nothing one client sends or its broker connection receives ever appears on another client's broker connection or at another client's address, under any interleaving.",
 ['inputs','histories','schedules'],'all sets of client ids and addresses, all interleavings of their traffic',
 "no existing test has two clients.",
 [G+'MQTTSNGWClientList.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWClient.cpp'],
 [('client lookup by address and by client id',G+'MQTTSNGWClientList.cpp')],['datagram destinations and broker connections'])
p('C13','Connection lifecycle',
 "A CONNECT from a sensor client that is not asleep opens a broker connection whose first packet is exactly one MQTT CONNECT with the client's id, keep-alive duration and clean-session flag (plus configured credentials), and the client receives exactly one CONNACK: accepted if and only if the broker accepted, otherwise with a rejecting code. A broker connection that cannot be opened gives a rejecting CONNACK. DISCONNECT from an active client sends MQTT DISCONNECT to the broker, closes the connection and is answered with DISCONNECT; a known client that is neither connected nor connecting gets no packet through to the broker and is told DISCONNECT (CONNECT apart).",
 ['inputs','histories','fault_sequences'],'all sequences of connect/disconnect/reconnect, broker answers and broker failures',
 "no existing test performs a CONNECT through the gateway.",
 [G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTGWConnectionHandler.cpp',G+'MQTTSNGWBrokerSendTask.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTGWPacket.cpp',G+'MQTTSNGWClientRecvTask.cpp'],
 [('CONNECT/CONNACK/DISCONNECT translation',G+'MQTTSNGWConnectionHandler.cpp')],['both wires, open/close of broker connections'])
p('C14','Will handshake',
 "If and only if CONNECT carries the Will flag, the gateway asks for WILLTOPIC and then WILLMSG before connecting to the broker (a CONNECT from a sleeping client only wakes it), and the MQTT CONNECT then carries exactly the will topic, will message, will QoS and will retain the client supplied. A will from an earlier connect that the client no longer requests never reaches the broker.",
 ['inputs','histories'],'all will topics, messages, QoS/retain flags; any sequence of connects with and without will',
 "no existing test performs a CONNECT with a will.",
 [G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTGWPacket.cpp',G+'MQTTSNGWPacket.cpp',G+'MQTTSNGWClientRecvTask.cpp'],
 [('WILLTOPICREQ/WILLMSGREQ sequencing',G+'MQTTSNGWConnectionHandler.cpp')],['both wires'])
p('C15','Sleeping clients get their buffered messages, in order, exactly once',
 "After DISCONNECT with a duration from an active client the gateway answers DISCONNECT, keeps the broker connection, and sends the client no application message until it wakes by PINGREQ or CONNECT; every PUBLISH the broker sent meanwhile (up to the buffer limit of 20) is then delivered exactly once, in order, before the PINGRESP that ends a wake-up by PINGREQ. Until that PINGRESP the client is awake and gets further messages at once. Its acknowledgements of delivered messages reach the broker while it is awake or asleep too, and a PUBREL of the broker that finds it asleep is answered with PUBCOMP by the gateway. Messages sent while the client is active are never delayed or repeated by an earlier sleep.",
 ['inputs','histories'],'all sequences of sleep, wake, reconnect and broker PUBLISH',
 "no existing test puts a client to sleep.",
 [G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTGWPublishHandler.cpp',G+'MQTTSNGWClientSendTask.cpp'],
 [('per-client sleep buffer',G+'MQTTSNGWClient.cpp'),('sendStoredPublish / PINGREQ',G+'MQTTSNGWConnectionHandler.cpp')],['datagrams to the sleeping client in virtual time'])
p('C16','Admission control: authorised clients only, and never more than the maximum',
 "With client authentication enabled, a directly attached sender is connected to the broker only under a client id that is listed in the clients file with the address it sends from; any other direct sender never causes a broker connection. The number of simultaneously admitted clients never exceeds MaxNumberOfClients, and a client arriving when the gateway is full is refused without disturbing the admitted ones.",
 ['inputs','histories','configurations'],'all client lists, addresses and arrival orders',
 "no existing test loads a clients file.",
 [G+'MQTTSNGWClientList.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWConnectionHandler.cpp'],
 [('ClientList::setClientList/createClient',G+'MQTTSNGWClientList.cpp'),('ClientsPool',G+'MQTTSNGWClientList.cpp')],['broker connections opened per sender'])
p('C17','Forwarder encapsulation is transparent',
 "A client reached through a registered forwarder gets the same service as a direct client: what is inside its encapsulation frames is treated as its packets, and every packet for it is sent to that forwarder's address, encapsulated with exactly that client's wireless node id and otherwise identical (as long as the frame fits the 1024-octet packet limit). Encapsulated frames from an address that is not a registered forwarder are ignored. The reserved bits of the Ctrl octet of a frame the gateway sends are 0.",
 ['inputs','histories','configurations'],'all wireless node ids (any length), inner packets, forwarders and interleavings',
 "no existing test covers encapsulation.",
 [G+'MQTTSNGWForwarder.cpp',G+'MQTTSNGWEncapsulatedPacket.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWClientSendTask.cpp',G+'MQTTSNGWAdapterManager.cpp'],
 [('encapsulation and node-id tables',G+'MQTTSNGWForwarder.cpp')],['datagrams to forwarders'])
p('C18','QoS -1 publishing without a connection',
 "With the QoS-1 proxy enabled, a PUBLISH with QoS -1 on a predefined or short topic from a registered QoS-1 client results in exactly one QoS 0 MQTT PUBLISH with the right topic name and payload on the proxy's own broker connection, whose first packet is a CONNECT, even if the proxy was not connected when it arrived; only messages under way at the moment a broker connection ends may be lost. Other senders' QoS -1 messages are not forwarded by the proxy, and no reply is sent to the publisher.",
 ['inputs','histories','fault_sequences'],'all payloads/topics/senders, proxy connected or not, broker connection lost at any point',
 "no existing test sends a QoS -1 message.",
 [G+'MQTTSNGWQoSm1Proxy.cpp',G+'MQTTSNGWAdapter.cpp',G+'MQTTSNGWAdapterManager.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWPublishHandler.cpp'],
 [('proxy client and its connection',G+'MQTTSNGWAdapter.cpp')],['both wires'])
p('C19','Aggregating gateway multiplexes clients over one broker connection correctly',
 "In aggregating mode all clients share one broker connection: every PUBLISH and SUBSCRIBE of a connected client appears there once with the right topic and payload and, for QoS 1/2 and SUBSCRIBE, a non-zero message id unique among outstanding ones; UNSUBSCRIBE appears there likewise unless another client still holds the same filter, in which case it is answered directly. Each acknowledgement from the broker goes back to the client whose request it answers with that client's own message id. A PUBLISH from the broker is delivered exactly once to exactly the connected clients whose subscriptions match its topic, and acknowledged to the broker by the gateway itself.",
 ['inputs','histories','schedules'],'all client sets, subscriptions, message-id collisions and interleavings',
 "no existing test runs the aggregating gateway.",
 [G+'MQTTSNGWAggregater.cpp',G+'MQTTSNGWAggregateTopicTable.cpp',G+'MQTTSNGWMessageIdTable.cpp',G+'MQTTSNAggregateConnectionHandler.cpp',G+'MQTTGWPublishHandler.cpp',G+'MQTTSNGWPublishHandler.cpp',G+'MQTTSNGWSubscribeHandler.cpp',G+'MQTTGWSubscribeHandler.cpp'],
 [('message-id translation table',G+'MQTTSNGWMessageIdTable.cpp'),('topic to clients table',G+'MQTTSNGWAggregateTopicTable.cpp')],['both wires'])
p('C20','Topic filter matching follows MQTT wildcard rules',
 "A topic filter matches a topic name if and only if the MQTT rules for '+' and '#' say so: '+' matches exactly one level (possibly empty), '#' matches any number of remaining levels including the parent, and every other level must be equal character for character (topics beginning with '$' apart).",
 ['inputs'],'all pairs of valid topic filter and topic name',
 "TestTopics checks a fixed list of a few dozen pairs.",
 [G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWTopic.h'],[('Topic::isMatch, Topics::match',G+'MQTTSNGWTopic.cpp')],['return value of the matcher'])
p('C21','Predefined topics',
 "A topic listed in the predefined topic file with id N for a client (or for all clients) can be published and subscribed with predefined id N without registration and always means exactly that topic name for exactly those clients; ids not listed for a client are rejected. This holds for every id value, any number of clients and up to 50 entries per client in the file.",
 ['inputs','configurations'],'all predefined topic files and publish/subscribe sequences',
 "no existing test loads a predefined topic file.",
 [G+'MQTTSNGWClientList.cpp',G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWPublishHandler.cpp',G+'MQTTSNGWSubscribeHandler.cpp',G+'MQTTGWPublishHandler.cpp'],
 [('readPredefinedList/createPredefinedTopic',G+'MQTTSNGWClientList.cpp'),('getTopicById lookup',G+'MQTTSNGWTopic.cpp')],['both wires'])
p('C22','Configuration parameters are read exactly as written',
 "For any configuration file with lines of up to 126 characters, asking for a parameter returns the value of the first uncommented 'Name=value' line with exactly that name, with surrounding white space removed, and reports absence otherwise; comment lines, blank lines, lines without '=' and a missing final newline never change the result or cause an invalid memory access.",
 ['inputs','configurations'],'all configuration file texts and parameter names up to the documented line length',
 "testPFW reads two parameters from the one shipped gateway.conf.",
 [G+'MQTTSNGWProcess.cpp',G+'MQTTSNGateway.cpp'],[('Process::getParam',G+'MQTTSNGWProcess.cpp')],['return code and value'])
p('C23','Event queues deliver each event exactly once, in order, with no lost wake-up',
 "Under any interleaving of producers and a consumer, every event accepted by a gateway event queue is handed out exactly once and in FIFO order per producer, a bounded queue never holds more than its limit, a waiting consumer is always woken by a posted event, and a timed wait returns a time-out event only when the queue had nothing to deliver.",
 ['schedules'],'all interleavings of post, wait, timed wait and size from several threads',
 "TestQue is single-threaded and exercises only the unlocked container.",
 [G+'MQTTSNGateway.cpp',G+'MQTTSNGateway.h',G+'MQTTSNGWProcess.h',G+'linux/Threading.cpp'],[('EventQue post/wait/timedwait',G+'MQTTSNGateway.cpp'),('Que<T>',G+'MQTTSNGWProcess.h'),('Semaphore/Mutex',G+'linux/Threading.cpp')],['events posted and received under a controlled scheduler and ThreadSanitizer'])
p('C24','Gateway discovery',
 "Every SEARCHGW datagram is answered by GWINFO with the configured gateway id, on the sensor network's broadcast address. ADVERTISE with the configured gateway id and a duration equal to the configured keep-alive is broadcast at that interval (within a few seconds) while the gateway runs, whatever the traffic.",
 ['inputs','histories','configurations'],'all gateway ids, durations, radii and traffic patterns over time',
 "no existing test covers discovery.",
 [G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWPacketHandleTask.cpp',G+'MQTTSNGWClientSendTask.cpp'],[('sendADVERTISE/handleSearchgw',G+'MQTTSNGWConnectionHandler.cpp')],['broadcast datagrams in virtual time'])
p('C25','Clean shutdown',
 "On SIGINT, in any state and under any load, also when the broker has stopped answering or reading, all gateway tasks terminate and the process ends within a few seconds without deadlock or invalid memory access.",
 ['schedules','histories'],'SIGINT at any point of any workload and thread interleaving',
 "no existing test starts the gateway's tasks.",
 [G+'MQTTSNGateway.cpp',G+'MQTTSNGWProcess.cpp',G+'linux/Threading.cpp',G+'MQTTSNGWBrokerRecvTask.cpp',G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGWBrokerSendTask.cpp',G+'MQTTSNGWClientSendTask.cpp'],[('stop events, waitStop',G+'MQTTSNGateway.cpp')],['process exit, sanitizer reports'])
p('C26','Keep-alive is end to end',
 "A PINGREQ from an active client produces exactly one MQTT PINGREQ on that client's broker connection and the broker's PINGRESP produces exactly one MQTT-SN PINGRESP to that client, and the gateway never invents either for an active client.",
 ['inputs','histories'],'all interleavings of pings with other traffic of several clients',
 "no existing test sends a ping through the gateway.",
 [G+'MQTTSNGWConnectionHandler.cpp',G+'MQTTGWConnectionHandler.cpp'],[('handlePingreq/handlePingresp',G+'MQTTSNGWConnectionHandler.cpp')],['both wires'])
p('C27','Serving traffic does not leak memory or sockets',
 "Memory and sockets held by the gateway depend only on its sessions and what they have outstanding, not on how many messages it has handled: repeating any cycle of client and broker traffic that returns to the same session state does not make them grow.",
 ['histories','inputs'],'all repeatable traffic cycles, including refused, rejected and malformed packets, lost connections and reconnections',
 "no existing test measures memory or runs a workload.",
 [G+'MQTTSNGWClientRecvTask.cpp',G+'MQTTSNGateway.cpp',G+'MQTTSNGWTopic.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTGWPacket.cpp'],[('event and packet ownership',G+'MQTTSNGateway.cpp')],['live heap bytes at quiescent points'])
p('C28','XBee: every frame is one packet',
 "With an XBee modem, every well-formed API frame that carries a packet of 1 to 243 octets and fits the caller's buffer is returned by one read with exactly its payload and the sender's address, in order and without duplicates, and nothing else is ever returned: frames with a wrong checksum, cut-off, over-long or too short frames, other frame types and noise are skipped (after a damaged frame at most what follows up to the next pause may be lost with it), and no octet sequence causes an invalid memory access. Every packet of up to 241 octets is transmitted as exactly one valid, escaped Transmit Request with the payload and the 64- and 16-bit address of its destination and a frame id that is neither 0 nor the preceding one; a send reports success if and only if the modem reported delivery of that very frame while the send waited. An address of 16 hexadecimal digits in clients.conf designates the modem with that 64-bit address.",
 ['inputs','histories','faults'],'all octet sequences with pauses on the serial line, all payloads, addresses and statuses (early, late, missing, of other frames) in both API modes',
 "no existing test opens a serial port or builds the XBee variant.",
 [G+'linux/xbee/SensorNetwork.cpp',G+'linux/xbee/SensorNetwork.h',G+'linux/Threading.cpp'],[('XBee::recv, readApiFrame',G+'linux/xbee/SensorNetwork.cpp'),('XBee::send',G+'linux/xbee/SensorNetwork.cpp'),('SensorNetAddress',G+'linux/xbee/SensorNetwork.cpp')],['octets written to the port','packets returned by read','return value of unicast/broadcast'])
p('C29','LoRaLink: every frame is one packet',
 "With LoRaLink modems, every well-formed frame that carries an MQTT-SN packet of 1 to 256 octets and fits the caller's buffer is returned by one read with exactly its payload and source address, in the order of its modem and without duplicates, whatever precedes it and however the frames of the two modems are interleaved; nothing else is ever returned (wrong checksums, cut-off frames, impossible lengths, octets outside frames, acknowledgements and other payload types), and no octet sequence causes an invalid memory access. Every packet is transmitted to the sending modem as exactly one valid, escaped frame with its payload and destination, or refused; a send reports success if and only if the modem's response to it, while the send waited, was an acknowledgement.",
 ['inputs','histories','faults'],'all octet sequences with pauses and interleavings on the two serial lines, all payloads, addresses and responses',
 "no existing test opens a serial port or builds the LoRaLink variant.",
 [G+'linux/loralink/SensorNetwork.cpp',G+'linux/loralink/SensorNetwork.h',G+'linux/Threading.cpp'],[('LoRaLink::recv, readApiFrame',G+'linux/loralink/SensorNetwork.cpp'),('LoRaLink::send',G+'linux/loralink/SensorNetwork.cpp')],['octets written to the ports','packets returned by read','return value of unicast/broadcast'])
p('C30','The gateway over IPv6',
 "Built for UDP over IPv6 the gateway serves its clients just as over IPv4: every packet of a client is attributed to the session of exactly its address (all 128 bits and the port) and every packet for a client goes to exactly that address, entries '[address]:port' of clients.conf designate exactly that address for clients, forwarders and QoS -1 publishers in every textual form, and broadcasts go to the configured multicast group and port.",
 ['inputs','histories','configurations','schedules'],'all IPv6 addresses and ports, client lists and interleavings of clients',
 "no existing test builds or runs the IPv6 variant.",
 [G+'linux/udp6/SensorNetwork.cpp',G+'linux/udp6/SensorNetwork.h',G+'MQTTSNGWClientList.cpp'],[('UDPPort6 send/receive',G+'linux/udp6/SensorNetwork.cpp'),('SensorNetAddress',G+'linux/udp6/SensorNetwork.cpp'),('client lookup by address',G+'MQTTSNGWClientList.cpp')],['datagrams on a simulated network, broker connections'])
p('C31','TLS to the broker',
 "A client or publisher marked secureConnection in clients.conf reaches the broker only over TLS on BrokerSecurePortNo, and every other client only in the clear on BrokerPortNo. A TLS connection is used only when the broker proves with a certificate chain ending in RootCAfile/RootCApath, valid now, that it is the configured host (common name equal to it, or '*.' and its parent domain); to any other peer the gateway sends no MQTT octet and the client is told that its CONNECT was not accepted, after which it may try again. Served over TLS the client's traffic is the same as in the clear, however the broker divides packets into records, sends session tickets, resumes sessions, updates keys, or ends the connection with or without notice, and no such event stops the gateway or disturbs other clients.",
 ['inputs','histories','schedules','configurations','faults'],'all broker certificates, TLS versions, record divisions, connection ends and interleavings of secure and plain clients',
 "no existing test opens a TLS connection.",
 [G+'linux/Network.cpp',G+'MQTTGWPacket.cpp',G+'MQTTSNGWBrokerSendTask.cpp',G+'MQTTSNGWBrokerRecvTask.cpp',G+'MQTTSNGWAdapter.cpp'],[('Network::connect/send/recv/close',G+'linux/Network.cpp'),('choice of the connection',G+'MQTTSNGWBrokerSendTask.cpp'),('secure proxy',G+'MQTTSNGWAdapter.cpp')],['octets on simulated broker connections before and after decryption, datagrams on the simulated network'])
p('C32','The log in shared memory',
 "With ShearedMemory=YES what the gateway logs is printed by MQTT-SNLogmonitor started with the same configuration, from whatever directory either is started: in the order in which it was logged, every octet once, entries of different threads not mixed, also when the monitor is stopped with SIGINT and started again. When more is logged than the buffer holds before the monitor reads, the oldest is lost and nothing else: what is printed is never garbled, repeated or out of order, and the most recent text (at least 8000 octets) is printed whole. Nothing outside the shared segments is written, and neither a slow, absent, stopped or killed monitor nor what an earlier gateway left behind stops or delays the gateway. With ShearedMemory=NO the same text goes to standard output.",
 ['inputs','histories','schedules','crash points','configurations'],'all entries, bursts, monitor stops, kills and starts, gateway restarts and interleavings of threads and processes',
 "the existing test writes a few entries that fit at once and reads nothing back.",
 [G+'linux/Threading.cpp',G+'MQTTSNGWProcess.cpp',G+'MQTTSNGWLogmonitor.cpp'],[('RingBuffer, Mutex, NamedSemaphore',G+'linux/Threading.cpp'),('putLog, getLog',G+'MQTTSNGWProcess.cpp'),('Logmonitor::run',G+'MQTTSNGWLogmonitor.cpp')],['standard output of the monitor and of the gateway'])
p('C33','No data races in the gateway',
 "Whatever clients and broker do, the gateway's threads access the state they share (clients, their status, adapters and connections, event queues, tables, timers, indicators, the log) only under common synchronisation: no execution has a data race or acquires locks in inconsistent order, no lock is misused, and no thread waits for ever. This holds for transparent and aggregating gateways, plain and TLS connections, and the log on standard output and in shared memory.",
 ['schedules','histories','configurations','inputs'],'all interleavings of the tasks of the gateway under all traffic',
 "no existing test runs the tasks of the gateway together.",
 [G+'MQTTSNGWProcess.cpp',G+'MQTTSNGWClient.cpp',G+'MQTTSNGWClientList.cpp',G+'MQTTSNGateway.cpp',G+'MQTTSNGWAdapter.cpp',G+'MQTTSNGWBrokerRecvTask.cpp',G+'MQTTSNGWBrokerSendTask.cpp',G+'linux/Network.cpp',G+'linux/Threading.cpp',G+'linux/Timer.cpp'],[('Client status',G+'MQTTSNGWClient.cpp'),('ClientList',G+'MQTTSNGWClientList.cpp'),('EventQue',G+'MQTTSNGateway.cpp'),('putLog',G+'MQTTSNGWProcess.cpp'),('TCPStack, Network',G+'linux/Network.cpp')],['reports of the race detector on the running gateway'])
p('C34','Bluetooth RFCOMM: every packet once, from and to the right device',
 "Built for RFCOMM the gateway listens on each of the channels 1 to 30 of the configured address that can be opened, and starts unless that is none or the address is not valid. Every whole MQTT-SN packet of at most 1024 octets (1- or 3-octet length) that a connected device sends is returned by one read, unchanged, once, in the order of that device and without waiting for another device to stop sending, with the device's address and channel as sender, however the stream cuts and joins packets and whatever other devices do; longer packets are skipped, after an impossible length only that device's connection may be lost. A packet for a device is sent, as one piece of its stream, to the device with that address on that channel if it is connected and to nobody else, otherwise the send reports failure; a broadcast goes once to every connected device. Devices that leave, are reset or stop reading disturb no other device, their channel becomes free, and no descriptor is used or closed after it was closed. 'XX:XX:XX:XX:XX:XX.channel' designates exactly that device; other texts and channels above 30 are refused.",
 ['inputs','histories','faults'],'all packet sequences, segmentations and interleavings of devices, connection and failure histories, addresses and channels',
 "no existing test opens a Bluetooth socket.",
 [G+'linux/rfcomm/SensorNetwork.cpp',G+'linux/rfcomm/SensorNetwork.h'],[('SensorNetwork::read, unicast, broadcast',G+'linux/rfcomm/SensorNetwork.cpp'),('RfcommPort',G+'linux/rfcomm/SensorNetwork.cpp'),('SensorNetAddress',G+'linux/rfcomm/SensorNetwork.cpp')],['packets returned by read, octets sent on simulated sockets'])
p('C35','The clients file and the predefined topics file are read as written',
 "Each line 'id,address' of the clients file with any of the words unstableLine, secureConnection, QoS-1 and forwarder after it (separated by commas, white space anywhere) stands for exactly one sender: with ClientAuthentication=YES a client with that id at that address, with QoS-1=YES a publisher of QoS -1 if that word is there, with Forwarder=YES a forwarder if that word is there; a client or publisher reaches the broker over TLS if and only if secureConnection is there. Each line 'id,topic,number' of the predefined topics file gives that predefined id (1 to 65535) to that client, or to everybody for the id '*'. Lines beginning with #, of any length, empty lines and lines without a valid address (IPv4 address and port 1 to 65535) or topic id stand for nothing; neither they nor long lines, the order of the lines or a missing final newline change what other lines mean.",
 ['inputs','configurations'],'all clients and topics files, in all combinations of the switches',
 "no existing test loads either file.",
 [G+'MQTTSNGWClientList.cpp',G+'MQTTSNGWForwarder.cpp',G+'linux/udp/SensorNetwork.cpp'],[('ClientList::createList, readPredefinedList, createClient',G+'MQTTSNGWClientList.cpp'),('ForwarderList',G+'MQTTSNGWForwarder.cpp'),('SensorNetAddress::setAddress',G+'linux/udp/SensorNetwork.cpp')],['clients, forwarders and predefined topics the gateway has after reading the files'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
