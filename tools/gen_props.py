#!/usr/bin/env python3
# Single source for properties.jsonl.  Run: python3 tools/gen_props.py > properties.jsonl
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

# ---------------------------------------------------------------- connections
p("C01","One exchange at a time on a broker connection",
  "All bytes a client writes to or reads from a broker connection, including those of connection set-up on a reconnect, are exchanged while the caller exclusively holds that broker, so requests and responses of concurrent callers never interleave. A streamed fetch response is completely drained before its consumer is told about an error in it or that it is finished, so no later request on that connection can read its leftovers.",
  ["schedules","fault_sequences"],"every interleaving of concurrent callers sharing one broker object, and every point at which a fetch response turns out to be faulty",
  "Tests run one caller against a mocked connection; no test schedules two callers or a decode error against a following request.",
  ["broker.go","response.go","simple_consumer.go","fetch_response.go"],
  [("broker mutex","Broker.RequestAndGet / Broker.requestFetchStreamingly"),("drain","fetchResponseStreamDecoder.readAll / streamDecode")],
  [("Broker.conn","the TCP/TLS connection","broker.go")],["net.Conn Read/Write calls"])
p("C02","A connection whose exchange failed is never used again",
  "When sending a request or reading its response fails (write error, read error, timeout, short frame), the connection is closed and dropped before the caller gets the error, and the next request dials a fresh one. Closing a broker drops its connection as well, so that later use reconnects instead of writing to a closed socket.",
  ["fault_sequences","histories"],"every failure of every write and read of an exchange, on both the buffered and the streaming path",
  "Tests only inject one or two canned read errors; they never follow a failed exchange by another one.",
  ["broker.go","response.go","simple_consumer.go"],
  [("close on error","Broker.RequestAndGet deferred close; Broker.requestStreamingly deferred close"),("reopen","Broker.ensureOpen")],
  [("Broker.conn","nil means: dial before use","broker.go")])
p("C03","Connection set-up is complete before a connection carries requests",
  "A broker connection is dialled (over TLS whenever TLS is enabled), then its API versions are requested and stored, then, when a SASL mechanism is configured, handshake and authentication both succeed, before any other request may use it. If any of these steps fails, the caller gets that error and the half-initialised connection is not kept for later requests.",
  ["fault_sequences","configurations"],"every combination of TLS/SASL configuration and every set-up step that can fail, on first connect and on reconnect",
  "No test exercises SASL or TLS; connection creation is mocked out.",
  ["broker.go","sasl_handshake_request.go","sasl_authenticate_request.go"],
  [("set-up sequence","Broker.createConnAndAuth, newConn, sendSaslAuthenticate")])
p("C04","Every request carries a fresh id and one consistent version",
  "Each request goes out with a correlation id never used before on that broker, and with the negotiated version of its own API: the version written in the header, the version its body is encoded for and the version its response is decoded with are the same. The response is decoded by the decoder of the API that was requested.",
  ["inputs","histories","configurations"],"every request type, every negotiated version, every sequence of requests on a broker",
  "Tests call encoders and decoders with hand-picked versions; nothing relates the version sent to the version decoded.",
  ["broker.go","response.go","request.go","simple_consumer.go","fetch_request.go"],
  [("stamping","Broker.Request, Broker.requestFetchStreamingly"),("dispatch","defaultReadParser.Parse")])
p("C05","The highest version both sides support is negotiated",
  "For every API the client uses the highest version it implements that lies inside the range the broker advertised, and version 0 when there is none. Apart from that fallback it never sends a version that it does not implement or that the broker did not advertise.",
  ["configurations","inputs"],"every advertised version table",
  "The existing tests use mocked brokers with at most one advertised table.",
  ["broker.go","request.go","apiversions_response.go"],
  [("selection","Broker.getHighestAvailableAPIVersion"),("implemented versions","availableVersions table")])
p("C06","No network wait is unbounded",
  "Dialling uses the configured connect timeout, and every read of a response from a broker is armed, just before it, with a deadline computed from the timeout that applies to that API (the per-API timeout when set and positive, otherwise the general one). A configured timeout is applied in the unit it is documented in, milliseconds.",
  ["fault_sequences","configurations"],"every silent or slow broker, on every read of every response, for every timeout configuration",
  "Mocked connections never block; no test configures a timeout.",
  ["broker.go","response.go","config.go"],
  [("deadlines","SetReadDeadline calls in Broker.requestStreamingly and defaultReadParser.Read"),("dial timeout","newConn")])
p("C07","Response frames are read completely before they are used",
  "The client acts on a length, header or field read from a connection only after all of its bytes have arrived, whatever way the network splits them; a short read is retried or reported, never used as if complete. A response body handed to a decoder has exactly the length its frame announced.",
  ["fault_sequences","inputs"],"every segmentation of the byte stream",
  "Mocked readers deliver each field in one piece.",
  ["response.go","broker.go","fetch_response.go"],
  [("read loops","defaultReadParser.Read, Broker.requestStreamingly, fetchResponseStreamDecoder.read")])
p("C08","Locks are always released, never re-acquired by their holder",
  "No path through the library leaves a function with a lock still held, acquires a lock its own call chain already holds, or releases a lock it does not hold, and there are no two locks taken in opposite orders; no goroutine waits, holding a lock, for others that need that lock to finish. So no sequence of API calls, errors or reconnects can make the client deadlock on its own locks.",
  ["schedules","fault_sequences"],"every path through every function, including all error paths, with every combination of callers",
  "A missing unlock or a re-acquisition shows up only on error paths that tests do not drive.",
  ["broker.go","brokers.go","group_consumer.go","producer.go","simple_producer.go"],
  [("mutexes","Broker.mux, Broker.closeLock, Brokers.mutex, GroupConsumer.mutex, GroupConsumer.restartLocker, Producer.lock, SimpleProducer.lock")])
# ---------------------------------------------------------------- errors
p("C09","Every error code a broker returns is reported",
  "For every response type, if any error code in the response (top level or nested per topic, partition, group or resource) is non-zero, then the response reports an error that is, or wraps, the Kafka error of a non-zero code of that response. It reports no error when all codes are zero.",
  ["inputs"],"every response value: any number of topics/partitions/resources and any position of the failing one",
  "Tests check a few responses with one element; the position and nesting of the failing element is unbounded.",
  ["error.go","errorcode.go","metadata_response.go","produce_response.go","offset_response.go","delete_acls_response.go"],
  [("error extraction","the Error() methods of all response types")])
p("C10","A failed request is never reported as success",
  "Whenever a request to a broker, a metadata lookup or a connection attempt made on behalf of an API call fails, that call either retries (or moves on to another broker) or returns a non-nil error; it never returns success with the failure dropped.",
  ["fault_sequences","inputs"],"every failing step of every client, producer, consumer-group and broker-list operation",
  "Tests cover one or two failing steps by mocking; error paths of most operations never run.",
  ["client.go","broker.go","brokers.go","producer.go","simple_producer.go","group_consumer.go","simple_consumer.go"],
  [("error returns","Client methods, Broker.request*, Brokers.*, GroupConsumer.join/sync/heartbeat")])
p("C11","A missing response or lookup result is never dereferenced",
  "When a request, lookup or decode fails, no code goes on to use the missing result: no type assertion or field access on an absent response, broker or optional value. A failing broker therefore produces an error, not a crash of the calling program.",
  ["fault_sequences","inputs"],"every failing request or lookup in every operation, every optional field left null by a broker",
  "Needs the failure to be injected at each individual call site.",
  ["client.go","broker.go","brokers.go","simple_consumer.go","simple_producer.go","create_partitions_response.go","delete_acls_response.go"],
  [("guards","err checks before resp.(T), nil checks before dereference")])
p("C12","Kafka error codes map one-to-one to their errors",
  "Every error code of the protocol that the client knows maps to the error with exactly that number, name and retriability, and distinct codes map to distinct errors. Code 0 is no error, and an unknown code is still reported as an error.",
  ["inputs"],"all 16-bit error codes",
  "No test enumerates the table.",
  ["errorcode.go","error.go"],
  [("table","AllError, getErrorFromErrorCode, KafkaError")])
# ---------------------------------------------------------------- wire format
p("C13","Requests are encoded exactly as the Kafka protocol prescribes",
  "For every API and every version the client can negotiate, the bytes of an encoded request are the protocol's field sequence for that version: right order, width, byte order, null and array representation, presence by version and tagged-field sections, each field carrying the value the caller set. This covers the request header as well.",
  ["inputs","configurations"],"every request value and every negotiable version",
  "Tests compare a handful of encodings, most of them for one version and one shape of value.",
  ["request.go","metadata_request.go","produce_request.go","fetch_request.go","offset_commit_request.go","joingroup_request.go","create_topics_request.go","primitive_type_encode.go"],
  [("encoders","Encode methods of all request types")])
p("C14","Responses are decoded exactly as the Kafka protocol prescribes",
  "For every API and every version the client can negotiate, each field of a decoded response comes from the byte range the protocol assigns to that field in that version: right order, width, null and array representation, presence by version and tagged-field sections. Nothing that follows a field is misread because of it.",
  ["inputs","configurations"],"every well-formed response of every negotiable version",
  "Tests decode a few canned responses; most versions, nulls and multi-element arrays are never decoded.",
  ["response.go","metadata_response.go","produce_response.go","offset_response.go","joingroup_response.go","list_groups_response.go","primitive_types_decode.go"],
  [("decoders","the New*Response / Decode* functions")])
p("C15","Header versions and flexible encodings match the protocol",
  "For every API and version the client can negotiate, the request header version and response header version chosen are those of the protocol (a client id from version 1 on, tagged fields from version 2 / 1 on, ApiVersions responses always version 0).",
  ["inputs","configurations"],"every (API, version) pair the client can send",
  "Tests check three or four pairs.",
  ["request.go","response.go"],
  [("tables","RequestHeader.headerVersion, responseHeaderVersion")])
p("C16","The frame length in a request equals the bytes that follow it",
  "For every request, version and value within the protocol's limits (strings of at most 32767 bytes), the four-byte length prefix equals the number of bytes sent after it, every byte sent was produced by the encoder of some field, and no encoder writes beyond the buffer it allocated.",
  ["inputs","configurations"],"every request value and every negotiable version",
  "Buffer-size formulas are checked only for the values in tests.",
  ["request.go","metadata_request.go","offset_fetch_request.go","describe_logdirs_request.go","elect_leaders_request.go"],
  [("length computations","length() methods and Encode methods")])
p("C17","Produced record batches are well-formed and complete",
  "Every record batch the producer sends has the v2 layout of the protocol, a batch length and record count that match its content, a CRC-32C computed over everything from the attributes on, attributes naming the compression actually applied, and holds every record it was given, each with its key, value and headers and its own offset delta.",
  ["inputs","configurations"],"every list of records and every compression setting",
  "Tests encode one or two fixed batches.",
  ["record.go","simple_producer.go","produce_request.go","compressor.go"],
  [("batch encoder","RecordBatch.Encode, Record.Encode, SimpleProducer.createRecordBatch")])
p("C18","Fetched records are decoded and delivered completely, in order",
  "Of a fetch response, exactly the records at or after the requested offset are delivered, once each and in log order, with topic, partition, key, value, headers and timestamp as stored and offset equal to the batch base offset plus the record's delta, for every compression codec. Records before the requested offset are never delivered, and a partition error in the response is reported to the consumer.",
  ["inputs","configurations"],"every fetch response: any number of partitions, batches and records, every codec and magic",
  "Tests decode a few captured responses.",
  ["fetch_response.go","record.go","message.go"],
  [("stream decoder","fetchResponseStreamDecoder.*"),("record decoder","DecodeToRecord"),("message set decoder","DecodeToMessageSet")])
p("C19","Every API the client can send has its own response decoder",
  "For every request type the library can send, responses are dispatched to the decoder of that API, and the value produced has exactly the type the callers of that API expect. A response of an API without decoder is an error.",
  ["programs","inputs"],"every request type and every caller of it",
  "A mismatch shows only when that API is used against a broker.",
  ["response.go","client.go","broker.go","brokers.go"],
  [("dispatch","defaultReadParser.Parse and the type assertions of its callers")])
p("C20","Group protocol payloads agree with the protocol and each other",
  "The consumer protocol metadata sent when joining and the member assignments sent by the group leader are encoded in the consumer protocol's format, and decoding what a member or leader encoded yields the same topics and partitions.",
  ["inputs"],"every subscription and assignment",
  "Only single-topic samples are tested.",
  ["group.go","assign.go","sync_group_request.go","joingroup_request.go"],
  [("payload codecs","ProtocolMetadata/MemberAssignment Encode and New*")])
# ---------------------------------------------------------------- producer
p("C21","Accepted messages are sent exactly once or their loss is reported",
  "Every message the producer accepted is in exactly one produce request: a buffered batch is taken out of the buffer in the same critical section in which it is sent, a full buffer is flushed, and closing flushes what is left before the connection closes. If sending a batch fails, a caller of the producer (the add, flush or send call that triggered it) gets the error.",
  ["schedules","fault_sequences","histories"],"every interleaving of adders, the flush timer and close, and every failing produce request",
  "There are no producer tests at all.",
  ["simple_producer.go","producer.go"],
  [("buffer swap","SimpleProducer.AddMessage/Flush/Close"),("retry","Producer.AddMessage")],
  [("SimpleProducer.records","accepted, not yet sent","simple_producer.go")])
p("C22","A closed producer accepts nothing and never reports success for it",
  "After a producer was closed, adding a message returns an error and leaves nothing behind in its buffer, also when close and add race; closing twice is harmless. A message handed to the producer may be reused by the caller after the call returns, without changing what is sent.",
  ["schedules","histories"],"every interleaving of add, flush and close; every later modification of the caller's buffers",
  "There are no producer tests at all.",
  ["simple_producer.go","producer.go"],
  [("closed check","SimpleProducer.AddMessage"),("once","SimpleProducer.Close"),("copy","SimpleProducer.AddMessage")])
p("C23","Messages with equal keys go to the same, valid partition",
  "The partition of a keyed message is a function of the key and the topic's partition count only, lies in the range of the topic's partitions, and the message is sent to the broker that leads that partition according to the metadata the producer holds. Messages without a key go to a partition that has no error.",
  ["inputs","histories"],"every key and every topic layout",
  "There are no producer tests at all.",
  ["producer.go"],
  [("routing","Producer.getSimpleProducer, getLeaderID, updateCurrentSimpleProducer")])
# ---------------------------------------------------------------- consumers
p("C24","A consumer's position advances only past delivered messages",
  "The position from which a partition consumer fetches next changes only to the offset just after a message that was handed to the user's channel, or to an offset obtained successfully from the brokers; messages are handed over in the order received and none is skipped. A failed offset lookup never changes the position.",
  ["schedules","fault_sequences"],"every sequence of messages, errors, cancellations and offset lookups",
  "Tests drive a few message sequences without failing lookups.",
  ["simple_consumer.go"],
  [("position","SimpleConsumer.consumeMessages, initOffset, getCommitedOffet")],
  [("SimpleConsumer.offset","next offset to fetch","simple_consumer.go")])
p("C25","Only positions of delivered messages are committed, under the right identity",
  "An offset commit carries the consumer's current position for its own topic and partition, a group member commits with its current member id and generation, and a non-member commits with none; invalid (negative) positions are never committed. A position is remembered as committed only if the broker accepted exactly that position, and an automatic committer makes a final commit when the consumer stops.",
  ["schedules","fault_sequences"],"every interleaving of consumption and commit, and every failed commit",
  "Tests check one successful commit.",
  ["simple_consumer.go","group_consumer.go","offset_commit_request.go"],
  [("commit","SimpleConsumer.CommitOffset/commitOffset, GroupConsumer.commitOffset")])
p("C26","Stopping a consumer ends every wait it is in",
  "Once a partition consumer is stopped, every loop of its goroutines ends: each retry loop checks for the stop, and every channel operation that could block waits for the stop as well. Stop returns only after the consume loop has ended, and then closes the fetch connection.",
  ["schedules"],"every moment at which stop can be called",
  "Tests stop the consumer at one or two points.",
  ["simple_consumer.go","fetch_response.go","consumer.go"],
  [("cancellation","SimpleConsumer.Stop, ctx, stop flag"),("selects","consumeMessages, putMessage, streamDecode")])
p("C27","Fetch errors trigger the matching recovery",
  "On an out-of-range offset the consumer looks the offset up again, on a not-leader error (code 6) it drops the old connection and finds the new leader, on a fenced leader epoch (code 74) it refreshes the partition metadata, on a message larger than the fetch size it enlarges the fetch size, and on a timeout or broken connection it closes that connection, so that the next fetch reconnects; afterwards it keeps consuming. No error makes the consumer silently stop.",
  ["fault_sequences"],"every error a fetch can report and every sequence of them",
  "Tests drive some of the errors once.",
  ["simple_consumer.go"],
  [("error reactions","SimpleConsumer.consumeMessages, consumeLoop")])
p("C28","Consumption starts where the user asked",
  "A non-negative requested offset is used as is. Otherwise the group's committed offset is used if there is one, and only if there is none the earliest (-2) or latest (-1) offset as requested; the group and multi-partition consumers request earliest exactly when configured to start from the beginning.",
  ["inputs","configurations","fault_sequences"],"every requested offset, committed state and configuration",
  "Tests cover individual helper functions.",
  ["simple_consumer.go","group_consumer.go","consumer.go"],
  [("start position","SimpleConsumer.Consume, initOffset, getOffset, getCommitedOffet")])
p("C29","Group requests carry the member's current identity",
  "Sync, heartbeat, commit and leave requests carry the group's id and the member id (and generation) assigned by the latest successful join; identity is updated exactly on a successful join, discarded when a join or sync is answered with unknown member and after leaving the group, and a member acts as leader exactly when the join response names it leader.",
  ["histories","fault_sequences"],"every sequence of joins, rebalances, evictions and errors",
  "Tests mock single joins.",
  ["group_consumer.go","broker.go"],
  [("identity","GroupConsumer.join/sync/heartbeat/commitOffset/leave")],
  [("GroupConsumer.memberID/generationID","identity from the last join","group_consumer.go")])
p("C30","A rebalance stops the old partitions before joining again",
  "Before a group consumer rejoins its group, every partition consumer of the previous assignment has been stopped and waited for, restarts are serialised, and heartbeats are suspended until the new join has completed. After a successful sync exactly the assigned partitions are consumed, each by one partition consumer.",
  ["schedules","histories"],"every interleaving of heartbeat failure, metadata change and consumption",
  "Tests never drive a rebalance.",
  ["group_consumer.go"],
  [("restart","GroupConsumer.restart, stop, consumeWithoutHeartBeat, parseGroupAssignments")])
p("C31","Group errors lead to the reaction the protocol requires",
  "When the coordinator is unavailable or has moved (codes 15, 16, or a broken connection while joining) it is looked up again before the next join; on an unknown member, illegal generation or rebalance the member rejoins; a failed heartbeat makes the member rejoin. Joining is retried until it succeeds or the consumer is closed.",
  ["fault_sequences"],"every error of every group request",
  "Tests mock a few join errors.",
  ["group_consumer.go"],
  [("reactions","GroupConsumer.join, sync, joinAndSync, Consume heartbeat loop")])
p("C32","Closing a group consumer stops its partitions, then leaves the group",
  "Closing stops and waits for the partition consumers (or times out) before leaving the group, a leave request is sent only for a joined member, and connections are closed last. After close no background activity of the consumer joins the group again.",
  ["schedules","histories"],"every moment at which close can be called",
  "Tests mock a close in one state.",
  ["group_consumer.go","consumer.go"],
  [("close","GroupConsumer.AwaitClose, leave, stop")])
# ---------------------------------------------------------------- admin, config, tools
p("C33","Requests are sent to the broker that is responsible for them",
  "Topic, partition, ACL and reassignment administration goes to the cluster controller, group operations to the coordinator of that group, offset lookups, produce and fetch requests to the leader of the partition concerned, per-broker queries to that broker, each identified from the cluster metadata the client holds; metadata received later replaces it, the controller included.",
  ["inputs","configurations"],"every cluster layout and every operation",
  "Mocked tests never distinguish brokers.",
  ["client.go","brokers.go","simple_consumer.go","simple_producer.go","producer.go","group_consumer.go"],
  [("routing","GetController / FindCoordinator / findLeader / GetBroker uses")])
p("C34","Configuration reaches the connections and requests it governs",
  "The connection settings of a consumer or producer configuration (connect and request timeouts, keep-alive, SASL mechanism, user and password, TLS) are passed on unchanged to every connection made for it; TLS is used exactly when enabled, with the certificate, authorities, server name and verification the settings say. A consumer's per-API timeouts follow from its own settings (more than the session timeout for joins, request timeout plus maximum wait for fetches) and configurations do not influence each other. Client id, session timeout, fetch sizes and waits, required acks and request timeout go into the request fields named after them, and intervals are taken as milliseconds. An invalid producer or group-consumer configuration, or an invalid offsets.storage, is rejected before any connection is made.",
  ["configurations"],"every configuration value",
  "Tests check defaults and a few keys.",
  ["config.go","consumer.go","producer.go","simple_producer.go","simple_consumer.go","group_consumer.go"],
  [("conversion","getBrokerConfigFromConsumerConfig, getBrokerConfigFromProducerConfig, create*Config, checkValid")])
p("C35","Command-line and REST front ends report failure and stop",
  "When a step of a CLI command or of a REST call fails (bad argument, connection, request), the command ends with an error and the REST call answers with an error status; neither goes on with steps that depend on the failed one nor reports success. A command that handles several independent items may finish the others, but still ends with an error.",
  ["inputs","fault_sequences"],"every command and handler, every failing step",
  "There are no tests for the front ends.",
  ["command/healer/cmd","command/healer/cmd/apicontrollers"],
  [("RunE returns","command/healer/cmd/*.go"),("handlers","command/healer/cmd/apicontrollers/*.go")])
p("C36","The REST server authenticates every API route when credentials are set",
  "When credentials are configured for the REST server, every API route is registered behind the authentication check, and a request with missing or wrong credentials is rejected before any handler runs (unless read-only access without credentials is allowed by get-allowed, and then only for GET, HEAD and OPTIONS). Each route calls the handler of its own operation.",
  ["inputs","configurations"],"every route and every request",
  "There are no tests for the REST server.",
  ["command/healer/cmd/api.go"],
  [("route set-up","api command")])
p("C37","Compression names, codes and codecs agree",
  "Each compression name a user can configure selects the codec of that name and the attribute code the protocol assigns to it, the decoder of each attribute code undoes exactly that codec, and an unknown name or code is an error.",
  ["inputs","configurations"],"every configured name and every attribute value",
  "Only lz4 is tested.",
  ["compressor.go","compress_type.go","simple_producer.go","fetch_response.go","message.go"],
  [("tables","NewCompressor, NewSimpleProducer, uncompress, Message decompress")])
p("C38","ACL and resource names round-trip to their protocol codes",
  "Each textual ACL operation, permission, pattern type and resource type corresponds to exactly one protocol code, in both directions: parsing the text of a code yields that code again, and unknown text is rejected or mapped to unknown (BROKER is accepted as a second name of the resource type CLUSTER).",
  ["inputs"],"every enumerator and every text",
  "Tests sample a few enumerators.",
  ["acl_types.go","resource_types.go"],
  [("enum tables","MarshalText/UnmarshalText/String of Acl* and resource types")])
# ---------------------------------------------------------------- outside the family
p("C39","Partition assignment gives every partition to exactly one member",
  "For every set of members and subscriptions, the assignment a group leader computes gives each partition of a subscribed topic to exactly one of the members subscribed to it, with sizes differing by at most one per topic.",
  ["inputs"],"every membership, subscription and partition count","Tests sample a few sizes.",["assign.go"],[("range assignor","rangeAssignmentStrategy.Assign, assignPartitions")])
p("C40","Decoders survive arbitrary bytes",
  "No response or record decoder panics, loops forever or allocates unboundedly on any byte string; malformed input yields an error.",
  ["inputs"],"every byte string","Tests feed well-formed data only.",["primitive_types_decode.go","metadata_response.go","fetch_response.go"],[("decoders","all response decoders")])
p("C41","End-to-end delivery: no message lost or duplicated without a failure",
  "Over any history of produce, rebalance, commit and restart in which no request fails, every produced message is consumed by the group exactly once.",
  ["histories","schedules"],"every history of a cluster and its clients","Needs a cluster.",["producer.go","group_consumer.go"],[("whole client","producer and group consumer")])
p("C42","A live group member is never evicted for lack of heartbeats",
  "As long as the process is scheduled and the coordinator reachable, a joined member's heartbeats arrive within every session timeout.",
  ["schedules"],"every timing of goroutines and network","Tests do not measure time.",["group_consumer.go"],[("heartbeat ticker","GroupConsumer.Consume")])
p("C43","Compressed payloads decompress to the original bytes",
  "For every codec and every byte string, decompressing what was compressed yields the original.",
  ["inputs"],"every byte string","Only lz4 samples are tested.",["gzip_compressor.go","snappy_compressor.go","lz4_compressor.go"],[("codecs","Compressor implementations")])
p("C44","A fetched record is decoded exactly as stored",
  "For every complete record of a v2 batch, decoding yields exactly its attributes, timestamp delta, offset delta, key, value and all its headers, each in full width, with null and empty keys, values and header values kept apart, and the position of the next record. A record is refused only when the input does not hold all of it.",
  ["inputs"],"every record: any lengths, nulls, number of headers and values","Tests decode a few records.",["record.go"],[("record decoder","DecodeToRecord")])

for d in P: print(json.dumps(d))
