import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
V='saltchannel/v2/'; S='saltchannel/saltlib/'; U='saltchannel/util/'; D='saltchannel/dev/'
CL=V+'salt_client_session.py'; SV=V+'salt_server_session.py'; EN=V+'encrypted_channel_v2.py'; AP=V+'app_channel_v2.py'; PK=V+'packets.py'; UP=U+'packets.py'; A1='saltchannel/a1a2/packets.py'; CH='saltchannel/channel.py'; UT=U+'__init__.py'; TM=U+'time.py'
NOT="The 32 existing tests only (de)serialise a few hand-picked packets; no test runs a session, a channel or a crypto back end at all. "
p('C01','Honest handshakes always complete with both peers in agreement',
 "Whenever an honest client and an honest server run the Salt Channel v2 handshake over a reliable message channel, with any valid signing and encryption key pairs, any combination of the message-buffering options and any timing setup, both sides complete it without error. Afterwards both hold the same session key, namely the NaCl precomputed box key of the two encryption key pairs, each side reports exactly the other's public signing key, and data can be exchanged at once. Starting a handshake with no encryption key pair is refused with ValueError before anything is written or read.",
 ['inputs','configurations','schedules'],'every quadruple of key pairs, every buffering/timing/API configuration, every order in which the two peers are scheduled',
 NOT+'Agreement is a relation between two peers over all keys and configurations.',
 [CL,SV,S+'saltlib.py'],[('client handshake steps M1..M4',CL+' handshake()'),('server handshake steps M1..M4',SV+' handshake()'),('shared key computation',S+'saltlib.py compute_shared_key()')],
 [('session key','symmetric key of this session','session_key on both sessions')],['session_key, client_sig_key, m3.ServerSigKey, app_channel read/write'])
p('C02','Application messages arrive intact, in order and exactly once',
 "After a handshake, for every sequence of application writes in either direction - one or many messages per call, of any length including empty and longer than 65535 bytes, and any number of messages - the peer's successive reads return exactly the written byte strings, in writing order, each exactly once. No message is lost, duplicated, truncated, merged or split, however reads and writes of the two directions interleave.",
 ['inputs','histories','schedules'],'every sequence of write calls (message counts, sizes, contents) and every interleaving with reads',
 NOT+'The packing rule (single packet, multi packet, separate packets) has size and count thresholds that no test crosses.',
 [AP,EN,PK],[('choice of AppPacket / MultiAppPacket',PK+' MultiAppPacket.should_use()'),('write/read queues',AP+' write(), read()'),('nonce counters',EN+' Nonce')],
 [('readQ','messages of a multi packet not yet returned',AP)],['app_channel.read(), app_channel.write()'])
p('C03','The last-message flag reaches the peer exactly where it was set',
 "When an application write is marked as last, exactly the final encrypted packet of that write carries the last flag on the wire and the underlying channel is told so; no packet of any other write and no handshake packet before it carries it. The receiver's last indicator is true once it has read the final message of the marked write, and false as long as no packet of a marked write has been read or after a later unmarked one has been read.",
 ['inputs','histories'],'every sequence of marked and unmarked writes of one or several messages in both directions, with and without a buffered M4',
 NOT+'One packet dump has the flag bit set; nothing checks which packet of a multi-packet write gets it or what the receiver reports.',
 [EN,AP,PK],[('flag put on the final packet only',EN+' write(), wrap()'),('flag taken from the packet just read',EN+' unwrap()')],
 [('last_flag','flag of the most recently read encrypted packet',EN)],['raw packets on the clear channel','app_channel.last','is_last given to the clear channel'])
p('C04','No handshake succeeds on an altered transcript or without proof of identity',
 "If any handshake message is altered, truncated, extended, replayed from another session, swapped, reflected or replaced by an attacker who lacks the peers' secret keys, the peer that receives it does not complete its handshake but fails with an error. A completed handshake therefore means that the holder of the reported signing key signed exactly the M1 and M2 bytes that this side sent and received, under the prefix for its role. The only exemption is the unauthenticated flag byte in the header of an encrypted packet.",
 ['inputs','fault_sequences','histories'],'every byte/bit position and kind of change to M1..M4, every wrong signature variant (key, prefix, hash, order, other transcript), every replay and reflection',
 NOT+'No test verifies a signature or a MAC in a session; absence of acceptance cannot be sampled by a few examples.',
 [CL,SV,EN,PK],[('transcript hashes and Signature1/2 checks',CL+' validate_signature1(); '+SV+' validate_signature2()'),('authenticated decryption of M3/M4',EN+' decrypt()')],
 [('m1_hash, m2_hash','SHA-512 of the raw M1 and M2',CL+', '+SV)],['outcome of handshake()'])
p('C05','Tampered, replayed, reordered or dropped traffic never reaches the application',
 "In an established session, whatever an attacker does to the packet stream of a direction - changing, truncating, extending, dropping, repeating, reordering, reflecting or injecting packets, also from other sessions - the messages the receiver gets are always a prefix of the messages the peer sent in that direction. The first read that meets an unexpected packet fails with BadPeer and delivers nothing from it, and no later packet can be accepted in its place.",
 ['inputs','histories','fault_sequences'],'every history of packets and attacker actions in both directions',
 NOT+'The attacker histories are unbounded and none is tested.',
 [EN,AP],[('authenticated decryption with a strictly sequential read nonce',EN+' read(), decrypt()'),('separate odd/even nonces per role',EN+' __init__()')],
 [('read_nonce','number of the next acceptable packet',EN)],['app_channel.read() results and exceptions'])
p('C06','Every byte on the wire conforms to Salt Channel v2',
 "Against any independent implementation of the Salt Channel v2 specification this library interoperates as client and as server: the handshake, application, multi-application, A1 and A2 packets it emits are byte for byte those the specification prescribes (field order, little-endian integers, packet types, protocol indicator, signature prefixes, nonce schedule, key derivation), and it accepts every packet a conforming peer may send.",
 ['inputs','histories'],'all keys, times, messages and packet sequences a conforming peer can produce',
 NOT+'Peers built from the same code agree with each other even when both are wrong; only an independent peer over generated sessions shows conformance.',
 [CL,SV,EN,AP,PK,A1],[('packet layouts',PK+', '+A1+', '+UP),('nonce layout',EN+' Nonce.__bytes__()'),('signature prefixes',PK+' SIG1_PREFIX, SIG2_PREFIX')],(),['clear channel bytes in both directions'])
p('C07','Nonces never repeat and plaintext never leaks, even after failed writes',
 "Within one session no two packets, in either direction, are ever encrypted under the same nonce with different content, including when writes on the underlying channel fail part way and the application goes on writing. Everything sent after M1 and M2 is sent only as encrypted packets, so application bytes, signing keys and signatures never appear on the underlying channel in clear.",
 ['histories','fault_sequences'],'every sequence of reads, writes and injected channel write failures on both sides of a session',
 NOT+'Nonce handling under failures is a property of whole histories.',
 [EN,AP,SV],[('nonce advanced for every packet before it is sent',EN+' write(); '+SV+' do_m3()'),('all app data goes through the encrypted channel',AP+' write()')],
 [('write_nonce','number of the next packet to send',EN)],['clear channel bytes'])
p('C08','Packet encoding and decoding are exact inverses',
 "For every packet type (M1, M2, M3, M4, encrypted, app, multi-app, A1, A2) and every assignment of legal field values, encoding gives exactly the specified bytes, the reported size equals the encoded length, and decoding these bytes gives the same field values and re-encodes to the same bytes. This also holds when the packet object was used to decode another packet before.",
 ['inputs','histories'],'all legal field values of all nine packet types, and all reuse histories of a packet object',
 'The tests check about 12 fixed dumps; lengths, boundary values and object reuse are not covered.',
 [UP,PK,A1],[('ctypes structures and variable parts',UP+' Packet, SmartStructure'),('variable-length factories',PK+' _opt_factory(); '+A1+' _opt_factory()')],(),['bytes(packet), packet(src_buf), packet.from_bytes, packet.size'])
p('C09','Malformed packets are always rejected as bad peer data',
 "Decoding any byte string that is not a legal packet of the expected type - wrong type byte, wrong protocol indicator, shorter than its fixed part or than its own length/count fields promise, empty, illegal address type or size, illegal A2 count, flag or protocol string, encrypted body under 16 bytes, multi-app packet with no or truncated messages - fails with BadPeer and with no other exception. No missing byte is ever made up and no field value is returned from such a packet.",
 ['inputs'],'all byte strings for all nine packet types',
 'The tests reject five hand-picked malformed inputs; the set of malformed inputs is infinite.',
 [UP,PK,A1],[('validate() methods',UP+', '+PK+', '+A1),('length checks while decoding',UP+' SmartStructure.from_bytes()')],(),['exception type from packet(src_buf) / from_bytes'])
p('C10','Hostile input at any stage ends in a clean protocol error',
 "Whatever bytes a peer sends at any point - instead of or inside M1, M2, M3, M4, A1, A2 or application packets, correctly encrypted or not - the call that reads them either completes as specified or fails with an exception of the SaltChannelException family; no other exception type escapes and nothing hangs. A peer that breaks the message format is reported as BadPeer, and a low-order or otherwise unusable public encryption key is reported the same way.",
 ['inputs','histories'],'all byte strings at all protocol stages for client, server, A1 client and application reader, including malicious but correctly encrypted plaintexts',
 NOT+'The input space is unbounded and the encrypted stages need a peer that can encrypt garbage.',
 [CL,SV,EN,AP,PK,A1,TM],[('decoding and validation of every received packet',PK+', '+A1),('error mapping',EN+' decrypt(); '+CL+' do_m3()')],(),['exception types from handshake(), do_a1a2(), app_channel.read()'])
p('C11','A client only ever ends up at the server it asked for',
 "A server that is asked in M1 for a signing key other than its own answers with a NoSuchServer M2 (last flag set, no server key) and fails with NoSuchServerException without establishing a session; asked for its own key, or for none, it proceeds. A client configured with a wanted server signing key names that key in M1, fails with NoSuchServerException when told so, and never completes a handshake with a peer that authenticates with a different key.",
 ['inputs','configurations'],'all wanted/actual key combinations, honest and dishonest servers',
 NOT+'No test runs a session with a server key in M1.',
 [CL,SV,PK],[('ServerSigKey comparison in M1',SV+' do_m1()'),('NoSuchServer handling',CL+' do_m2()'),('wanted server key',CL+' wanted_server_sig_key')],(),['handshake outcomes and the M1/M2 bytes'])
p('C12','A1/A2 discovery answers truthfully',
 "An A1 request for any address, or for the server's own public key, is answered by the protocol list the server was configured with (or the default list) and a request for another public key by a NoSuchServer A2 with no protocols; the client obtains exactly the answer sent. The answer is marked as last, no session is established, and the server reports itself done; an A1 or A2 that breaks the format is refused with BadPeer and never answered or returned.",
 ['inputs','configurations'],'all addresses, server keys and protocol lists of 0 to 127 entries',
 'Only A1/A2 packet dumps are tested, never the exchange.',
 ['saltchannel/a1a2/a1_client_session.py',A1,SV],[('A2 choice',SV+' do_a2()'),('A1 client',"saltchannel/a1a2/a1_client_session.py do_a1a2()")],(),['A1ClientSession.a2, raw A2 bytes, is_done'])
p('C13','Time fields carry the sender\'s clock and reach the receiver\'s check',
 "Every packet a session sends carries the time its own time keeper gave for it, and every received time is handed to that session's time checker before the packet's content is used: first times of M1/M2 as first time, all others as ordinary times, and a checker's refusal aborts the operation. The default checker accepts first times 0 and 1 only and refuses others with BadPeer; time keepers and checkers of different sessions are independent of each other.",
 ['inputs','histories','configurations'],'all time sequences of keepers on both sides, all checker refusals, several sessions at once',
 NOT+'No test uses a time keeper or checker.',
 [CL,SV,AP,TM],[('stamping',CL+' do_m1(), do_m4(); '+SV+' do_m2(), do_m3(); '+AP+' write()'),('checking',CL+' do_m2(), do_m3(); '+SV+' do_m1(), do_m4(); '+AP+' read()')],(),['Time field on the wire / in decrypted packets; calls received by the checker'])
p('C14','Message framing survives any fragmentation',
 "Messages written to a socket channel or to an asyncio stream channel are received by the other end of either kind as exactly the same sequence of byte strings, including empty ones, no matter how the byte stream is fragmented or coalesced and how many messages are passed per write. Each message travels as a 4-byte little-endian length followed by its bytes.",
 ['inputs','schedules'],'all message sequences and all fragmentations of the resulting byte stream',
 NOT+'Channels are untested; short reads and coalescing depend on timing in real use.',
 [CH,D+'client_server_a.py'],[('recv loop',CH+' SocketChannel.recvall()'),('stream reader/writer',D+'client_server_a.py SaltChannelStreamReader/Writer')],(),['read()/read_sync() results, bytes handed to the socket/transport'])
p('C15','Every I/O failure surfaces as a communication error, never as data',
 "If the connection ends or fails at any byte position, or a length prefix is impossible, then the pending read or write fails with ComException on socket and asyncio channels alike, also when it happens inside a handshake or an encrypted read or write. All messages completely received before are delivered unchanged, and a partly received message is never delivered, not even in part. After a read of a socket channel that failed with a time-out, reading again gives that message whole once the rest of it has arrived.",
 ['fault_sequences','inputs'],'every cut position in the byte stream, every kind of socket/stream failure at every operation',
 NOT+'Fault positions are not enumerable by hand and no test injects one.',
 [CH,D+'client_server_a.py',EN],[('error mapping',CH+' SocketChannel.read_sync()/write_sync(); AsyncioChannel.read()/write()')],(),['exception types and delivered messages'])
p('C16','Blocking and asyncio APIs are equivalent, from any thread',
 "Every coroutine of the public API of channels and sessions has a counterpart with the suffix _sync that does the same: with the same inputs it sends the same bytes, returns the same results and fails with the same error as awaiting the coroutine, also when sessions are created and used in threads that have no event loop or after an earlier event loop was closed. A blocking call never silently does nothing.",
 ['histories','configurations','schedules'],'all operation sequences, run through both APIs, in main and worker threads',
 NOT+'Equivalence is a relation between two executions.',
 [UT,CH,EN,AP,CL,SV,'saltchannel/a1a2/a1_client_session.py'],[('generated _sync methods',UT+' Syncizer'),('event loop lookup',UT+' force_event_loop()')],(),['wire bytes, results and exceptions of both APIs'])
p('C17','All crypto back ends implement NaCl and agree with each other',
 "For all keys, nonces and messages every available back end gives the results NaCl defines for SHA-512, Ed25519 signatures, X25519 key agreement and XSalsa20-Poly1305 boxes, so that data produced with one back end is accepted by every other, and the common crypto facade passes them on unchanged. Any altered signature, message or box, wrong key or wrong nonce is refused with the bad-signature or bad-encrypted-data error and never opened; keys, seeds and nonces of wrong length are refused with ValueError or one of these two errors, and no byte beyond their end is ever used.",
 ['inputs','configurations'],'all keys, nonces, messages (any length) and all single alterations, for all back ends',
 'tests/saltlib (a few fixed vectors) cannot run here and is not in the baseline; agreement for all inputs is not settled by vectors.',
 [S+'saltlib.py',S+'saltlib_native.py',S+'saltlib_pynacl.py',S+'saltlib_tweetnaclext.py'],[('ctypes bindings',S+'saltlib_native.py'),('facade',S+'saltlib.py SaltLib')],(),['results and exceptions of the crypto_* methods and the facade'])
p('C18','Crypto back end selection honours request and availability',
 "Asking for a specific back end gives that back end, asking for the best one gives the first available in the order native libsodium, PyNaCl, TweetNaCl extension, and if the requested one (or every one) is unavailable NoSuchLibException is raised. A missing library only makes its own back end unavailable; the rest of the package stays usable.",
 ['configurations'],'all subsets of installed libraries and all requests',
 NOT+'Library availability is fixed in a test environment.',
 [S+'saltlib.py',S+'saltlib_tweetnaclext.py',S+'saltlib_pynacl.py',S+'saltlib_native.py'],[('getLib()',S+'saltlib.py'),('isAvailable()',S+'saltlib_*.py')],(),['type of the returned back end / exception'])
p('C19','Concurrent sessions and tasks do not interfere',
 "Any number of sessions may run at the same time in one process, in any interleaving of their steps: each handshake and each message stream behaves exactly as if its session ran alone, and traffic of one session is never accepted by another. Within one session, several tasks writing concurrently on a stream channel while another one reads get every message delivered exactly once, unmixed, and in each task's own order.",
 ['schedules','histories'],'all interleavings of steps of several sessions and of several writer tasks',
 NOT+'Interference needs particular schedules and shared state.',
 [CL,SV,EN,AP,S+'saltlib.py',TM,UT],[('per-session state; shared singletons hold no session state',U+'__init__.py Singleton; '+TM),('no suspension between encryption and hand-over to the stream',EN+' write(); '+CH+' AsyncioChannel.write()')],(),['per-session results'])
p('C20','Observing and in-memory channels are transparent',
 "A channel wrapped by the man-in-the-middle channel behaves exactly like the channel itself for reads, writes, last flag and errors, while the byte counters equal the bytes actually passed and the log gets every message exactly once, in order, either at once or, with buffering on, when the buffer is flushed. The two ends of an in-memory tunnel deliver each other's messages unchanged and in order.",
 ['histories','inputs'],'all sequences of reads, writes, buffering switches and flushes',
 NOT+'Nothing in dev/ is tested.',
 [D+'mitm_channel.py',D+'tunnel.py'],[('delegation and counting',D+'mitm_channel.py MitmChannel'),('queues',D+'tunnel.py Tunnel, TunnelMP')],(),['wrapped channel calls, counters, log records'])
p('C21','Generated keys are valid, fresh and reproducible from their secret',
 "Every key pair the library creates is well formed (sizes 32/32 for encryption, 64/32 for signing, the secret signing key ends with the public key), the public part is the one NaCl derives from the secret part, and keys re-created from the secret are identical. Random bytes from every random source have the requested length, and independently created keys and random strings never repeat.",
 ['inputs','configurations'],'all secrets and seeds, all requested lengths, both random sources of every back end',
 'tests/saltlib cannot run here; validity must hold for every secret.',
 [S+'saltlib.py',S+'saltlib_native.py',S+'saltlib_pynacl.py'],[('create_*_keys*',S+'saltlib.py'),('randombytes',S+'saltlib_*.py')],(),['KeyPair values, random_bytes()'])
p('C22','The pure-Python crypto implementation agrees with NaCl',
 "The bundled pure-Python implementation gives, for all keys, nonces and messages, the same hashes, key pairs, signatures, shared keys and boxes as NaCl, opens every genuine signature and box to the original message, and refuses every altered one with the bad-signature or bad-encrypted-data error.",
 ['inputs'],'all keys, nonces and messages, and all single alterations',
 'The pure-Python back end has no tests at all.',
 [S+'saltlib_pure.py',S+'pure_pynacl/tweetnacl.py',S+'pure_pynacl/__init__.py'],[('ported TweetNaCl',S+'pure_pynacl/tweetnacl.py'),('wrapper',S+'saltlib_pure.py')],(),['results and exceptions of the crypto_* methods'])
p('C23','The client/server runners complete every session with the right peer',
 "The threaded and the asyncio client/server runners run exactly the requested number of client sessions against the given server session, each over its own connection, return only when all clients have ended, and keep serving after a client session failed; afterwards the server can be stopped and its port is released.",
 ['configurations','schedules'],'all session definitions and client counts, including failing clients',
 NOT+'Runners are untested.',
 [D+'client_server.py',D+'client_server_a.py'],[('MpClientServerPair',D+'client_server.py'),('ClientServerPairA, stream server',D+'client_server_a.py')],(),['sessions observed by client and server callbacks'])
p('C24','The bundled echo and example sessions do their exchange with any peer',
 "The sessions bundled in saltchannel/dev, blocking and asyncio alike, carry out their exchange with every conforming peer. Echo servers return every non-empty message unchanged and in order until an empty one or the end of the connection. The example servers 1 and 3 complete the handshake with their own keys and return the messages they get unchanged, the blocking ones serve further sessions on the same connection until the application messages are marked as last, and example 3 sends the times 1 to 4 and marks its last write as last; example 2 answers an A1 with its protocol list or with no-such-server. The example clients print the true session key, the responses and the byte counts of the connection, and example 3 fails when an echo differs. When the connection is lost a client fails instead of printing a result.",
 ['inputs','configurations','fault_sequences'],'all keys, messages, packings, numbers of sessions per connection, fragmentations and points at which the peer goes away',
 NOT+'The example sessions are run by hand only.',
 [D+'example_session1.py',D+'example_session2.py',D+'example_session3.py',D+'simple_echo_session.py',D+'example_session1_a.py',D+'example_session2_a.py',D+'example_session3_a.py',D+'simple_echo_session_a.py',D+'run_session.py',D+'run_session_a.py'],
 [('server_session() / client_session()',D+'example_session*.py, simple_echo_session*.py'),('byte counts',D+'mitm_channel.py')],(),['bytes exchanged with the peer, printed figures, exceptions'])
p('C25','Cancelling a read or write never loses, repeats or tears messages',
 "If a task that reads from or writes to an asyncio stream channel, or to a session on top of one, is cancelled (as by a timeout) at any point, then later reads still return all messages of the peer intact, in order and exactly once, and later writes still reach the peer. A cancelled write has sent either all of its messages or none, and its packets are never mixed with others.",
 ['schedules','fault_sequences','histories'],'every point of cancellation of every read and write, every fragmentation, every flow-control state',
 NOT+'Cancellation points depend on timing and are never exercised.',
 [CH,D+'client_server_a.py',EN,AP],[('read_msg() keeps what it already took from the stream',D+'client_server_a.py SaltChannelStreamReader'),('nothing is suspended between taking a packet and delivering it',EN+' read(); '+AP+' read()')],
 [('size of the message being read','kept across a cancelled read_msg()',D+'client_server_a.py')],['read() results, frames handed to the transport'])
p('C26','Encrypted channels are bound to key, role, position and session nonce',
 "Two encrypted channels set up directly with the same key and session nonce and opposite roles deliver each other's messages (any size, one or several per call, with their last flags) unchanged and in order. Packet number i (from 0) is a NaCl box under that key with the nonce (2i+1 from the client, 2i+2 from the server) as 8 bytes little-endian, the 8-byte session nonce, and 8 zero bytes; the session nonce is zero by default. A packet made under another key, session nonce, direction or position is refused with BadPeer, and channels with different session nonces do not influence each other. A key that is not 32 bytes long is refused with ValueError.",
 ['inputs','histories','configurations'],'all keys, session nonces, roles, positions and histories of writes, reads and foreign packets on several channels',
 NOT+'The encrypted channel is untested, and sessions only use the zero session nonce.',
 [EN,V+'packets.py'],[('nonce layout',EN+' Nonce'),('role dependent counters',EN+' EncryptedChannelV2.__init__()')],[('read_nonce, write_nonce','counter and session nonce of a direction',EN)],['packets on the clear channel, read() results'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
