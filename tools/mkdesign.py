import importlib,sys,re,json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
D={
'C01':("key pairs of both sides (incl. odd public keys), buffer_m2/buffer_M4, wanted server key, clocks (incl. time keepers whose successive first times differ), schedules, 1-3 handshakes in a row on one connection with new or the same session objects","both complete; session key = NaCl beforenm of the two pairs; peers report each other's signing keys; an echo works; a session without key pair raises ValueError and touches nothing"),
'C02':("write calls (1..65537 messages, 0..16 MB each, bytes/bytearray/memoryview) in both directions, reader/writer task schedules, lockstep histories","FIFO model per direction"),
'C03':("marked/unmarked writes of one or more packets, buffered M4, both directions; a reference sender that sets flags in every legal way","flag model over the decoded wire packets, receiver's indicator after every message"),
'C04':("every byte of M1..M4 changed (enumerated), generated edits, foreign sessions' messages, reflection, forged signatures of many kinds, relays with own ephemeral keys","the receiver must fail unless the delivered bytes are the honest ones; a completed handshake is checked for what was signed"),
'C05':("lists of attacker edits on packet streams, every byte of a packet, sessions of hundreds of packets and jumps to counters near 2^8..2^63","reference link decides which reads must succeed; delivered is a prefix of sent; BadPeer otherwise"),
'C06':("sessions in both roles against the reference peer, which sends every legal packet shape; message counts at the 16-bit limits; long sessions; A1/A2","byte equality with the reference encoder; everything legal is accepted"),
'C07':("every channel write of a session fails in turn (before, in the middle, after; also by cancellation), generated fault histories, concurrent writers, long sessions, jumps","reference finds the nonce of each packet by trial; no nonce with two contents; no plaintext, key or signature substring on the wire"),
'C08':("field values of nine packet types, limits, histories of earlier use (decode, fill, failed decode) of the packet object","reference encoder/decoder, size, inverse"),
'C09':("legal packets with edits, noise behind right headers, other types; every truncation and single-byte change of the fixed parts","reference verdict: illegal -> BadPeer only; legal -> accepted with exactly its fields"),
'C10':("bytes at every reading stage, sealed correctly or not: legal packets of any type, edits, noise, low-order and non-canonical keys, good and bad signatures","only SaltChannelException subclasses; BadPeer where the reference says broken; success exactly where it accepts"),
'C11':("wanted/own/claimed keys incl. every one-bit difference, shifted, reversed, zero; honest and dishonest servers","decision table; bytes of M1/M2"),
'C12':("A1 for any/own/other key (every bit), truncations, protocol lists 0..127, shared configured answers, several requests; legal and malformed A2 to clients","decision table and reference encoder; is_done; last mark"),
'C13':("time keepers with distinct generated values, checkers refusing the k-th time with several error types, several sessions interleaved, user-defined keepers/checkers","times on the wire = values the keeper gave in that operation; call log of the checker; content not used before the check"),
'C14':("message groups up to 16 MB and 5000 per call, all two- and three-fragment splits of a short stream, generated fragmentations, flow control, real socket pairs in duplex","framing model and FIFO model"),
'C15':("every byte position x every kind of end or failure for plain streams, handshakes, encrypted reads, writes; impossible length prefixes","ComException; complete messages delivered, nothing else"),
'C16':("scripts run twice (awaited / blocking) in six thread and loop contexts, hostile and failing peers, real sockets with one blocking session per thread","differential: bytes sent, results, error types equal; every public coroutine has its _sync counterpart; file descriptors do not leak"),
'C17':("keys, nonces, messages up to 200 kB on three back ends and the facade; every bit of signature/box/nonce/key; all lengths 0..69,96,128 of every key/seed/nonce argument","differential against nacl.bindings and hashlib; refusal with the documented error"),
'C18':("all 12 library sets x all single requests (enumerated), generated request sequences, fresh interpreters","decision table"),
'C19':("2-6 client/server pairs with generated interleavings of every channel operation, foreign packets, many writer tasks over a stream with back pressure, threads","metamorphic: each session alone vs all together; FIFO per task"),
'C20':("histories of reads, writes, failures, buffering switches, flushes on wrapped and plain channels; tunnels with both ends driven; sessions over them","twin run without wrapper; counter and log model; FIFO"),
'C21':("requests on every back end and random source, forked children, threads, fresh interpreters","NaCl derivation; freshness; per-bit statistics with false-alarm chance below 1e-20"),
'C22':("hash lengths 0-300, box lengths 0-150 and over 16 kB, keys, signatures, refusals, Poly1305 limbs","libsodium, hashlib, integer arithmetic"),
'C23':("rounds of 1-6 clients of many behaviours through both runners on loopback, restart, time limits inside the runners expiring 200 times too early","counting model of what clients and server saw; port released; stop returns"),
'C24':("bundled sessions against reference peers: keys, messages, packings, several sessions per connection, wrong echoes, loss after any packet, fragments; the programs as subprocesses","model of the documented exchange and of the printed figures"),
'C25':("cancellation after every byte of short messages at three layers (enumerated); generated cancellation points, fragments, flow control, message packings","FIFO model; a cancelled write counts as done entirely or not at all"),
'C26':("directly made channels: keys, roles, session nonces, neighbours with the same key, foreign packets, every bit of key/session nonce/counter","NaCl boxes built by the harness"),
}
out=open('/verif/tools/design/head.md').read()
sys.path.insert(0,'/verif')
for p in props:
    i=p['id']; d,o=D[i]
    src=open('/verif/vh/props/%s.py'%i.lower()).read()
    subs=re.findall(r'    Sub\("(\w+)", .*?quick=(\d+)(?:, thorough=(\d+))?',src)
    out+="### %s %s\n\n"%(i,p['title'])
    out+="* generated: %s.\n* oracle: %s.\n"%(d,o)
    out+="* sub-checks (cases quick/thorough): "+", ".join("%s (%s)"%(n,"enumerated" if q=='1' and not t else q+"/"+(t or q)) for n,q,t in subs)+".\n"
    out+="* beyond the tests: %s\n\n"%p['quantifier']['text']
out+=open('/verif/tools/design/tail.md').read()
open('/verif/DESIGN.md','w').write(out)
import os,collections
t=collections.defaultdict(list)
for s in sorted(os.listdir('/verif/seeded')):
    t[json.load(open('/verif/seeded/%s/meta.json'%s))['property']].append(s)
out=out.replace('@@TABLE@@','\n'.join('| %s | %s |'%(k,', '.join(v)) for k,v in sorted(t.items())))
open('/verif/DESIGN.md','w').write(out)
