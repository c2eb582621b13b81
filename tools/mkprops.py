#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
FS='protocol/src/fschacha20poly1305.rs'; LIB='protocol/src/lib.rs'; HS='protocol/src/handshake.rs'
IO='protocol/src/io.rs'; FU='protocol/src/futures.rs'; TL='traffic/src/lib.rs'; TI='traffic/src/io.rs'; TF='traffic/src/futures.rs'

p('C01','Packet encryption follows the BIP-324 forward-secure key and nonce schedule',
 'Counting packets in one direction from 0, packet n is sealed and opened with ChaCha20-Poly1305 under the nonce LE32(n mod 224) || LE64(n div 224) and the key of epoch n div 224, where each next epoch key is the first 32 ciphertext bytes of encrypting 32 zero bytes under the old key and the nonce FFFFFFFF || LE64(old epoch), independent of any associated data. This holds for every packet of an arbitrarily long session, on the sending and on the receiving side, and no key and nonce pair is ever used for two packets.',
 ['inputs','histories'],'every key, every associated data and contents, every number of packets already processed in the session, both directions',
 'The vector tests reach a handful of packet indices (at most a few rekeys) with fixed contents; the schedule has to be right at every index, at every epoch boundary and for every associated data.',
 [FS,LIB],[('nonce derivation and rekey step of the packet cipher',FS),('packet cipher use in encryption and decryption',LIB)],
 [('message counter','packets processed by this cipher',FS),('key','current epoch key',FS)],['bytes produced by encrypt','result of decrypt'],
 'construct a cipher at an arbitrary packet index')
p('C02','Length encryption follows the BIP-324 rekeying stream schedule for ever',
 'Counting packets in one direction from 0, the 3-byte length of packet n is XORed with bytes 3(n mod 224)..3(n mod 224)+3 of the ChaCha20 keystream (block counter starting at 0) under the nonce 00000000 || LE64(n div 224) and the length key of that epoch, and the next epoch key is the 32 keystream bytes that follow the 224th length. This holds for arbitrarily long sessions in both directions, and processing a length never fails or panics.',
 ['inputs','histories'],'every key, every 3-byte value, every number of packets already processed, both directions',
 'Vector tests touch a few indices; errors in the keystream position, in the epoch boundary or in the width of a counter appear only after hundreds, or billions, of packets.',
 [FS,LIB],[('length cipher step',FS),('length encryption and decryption',LIB)],
 [('chunk counter','lengths processed',FS),('block counter','byte position in the epoch keystream',FS),('key','epoch key',FS)],
 ['first three bytes of each packet','value returned when decrypting a length'],'construct a length cipher at an arbitrary index')
p('C03','Packet layout is exact and decoding inverts encoding for every payload',
 'Encrypting contents of length L (L at most 2^24-1) as the next packet writes exactly the encrypted 3-byte little-endian L, then the encrypted header byte (0 for genuine, 128 for decoy) and contents, then the 16-byte tag, and advances both ciphers by exactly one packet. A receiver in step with the sender recovers the remaining packet size L+17, the header byte, the contents and the packet type for every payload, associated data and packet number, whichever of the decryption entry points is used. Contents that do not fit the 3-byte length are refused with an error instead of being sent with a wrong length.',
 ['inputs','histories'],'every plaintext length and content, packet type, associated data and position in the session; all encryption and decryption entry points',
 'Tests try short messages and a few vectors; layout, length truncation at 2^24 and agreement of the entry points quantify over all lengths and histories.',
 [LIB,FS],[('packet encryption',LIB),('packet length and contents decryption, three entry points',LIB)],[],['ciphertext bytes','decrypted type and contents'])
p('C04','Only the exact next packet is accepted, and a rejected one changes nothing',
 'A receiver accepts a packet only if its tag is the valid ChaCha20-Poly1305 tag of exactly these ciphertext bytes and exactly this associated data under the key and nonce of the next expected packet number; a modified, truncated, extended, replayed, dropped, reordered or reflected packet, or wrong associated data, gives an error. A rejected packet exposes no decrypted bytes and does not advance the packet position, so the genuine packet is still accepted afterwards, and every accepted packet advances it by exactly one.',
 ['inputs','histories'],'every byte string presented as packet, every associated data, every sequence of accepted and rejected packets, all decryption entry points',
 'Tests flip nothing and replay nothing; rejection must hold for every alteration at every position of a session and the state after a rejection is never examined.',
 [LIB,FS],[('tag check before use, rekey only on success',FS),('decryption entry points',LIB)],
 [('message counter and key','receive position',FS)],['Result of decryption','later decryptions'],'construct a cipher at an arbitrary packet index')
p('C05','Bytes from the peer never panic the library; they give typed errors',
 'No byte string, of any length including the empty one, given to the low-level decryption and handshake functions as ciphertext, key, garbage or version data causes a panic, an arithmetic overflow or an out-of-bounds access. Ciphertexts shorter than a header and a tag are reported as too small by every entry point and authentication failures as decryption errors, and decryption of the length accepts every 3-byte value.',
 ['inputs','histories'],'every input byte string and every reachable session or handshake state',
 'Tests use well-formed data and one or two short inputs; absence of panics quantifies over all inputs and states.',
 [LIB,HS,FS],[('minimum size validation',LIB),('garbage search and version decryption',HS),('slicing and counters of the ciphers',FS)],[],['panics and Result values'])
p('C06','Buffer sizes are computed exactly, and too small buffers have no effect',
 'The size functions return exactly the number of bytes the corresponding operation writes or needs, a buffer of exactly that size always suffices, and bytes of a larger buffer beyond it are left untouched. With a smaller buffer the operation returns the buffer-too-small error carrying exactly the required size and neither writes to the buffer nor advances any cipher, so the caller can retry.',
 ['inputs','histories'],'every plaintext, decoy list and garbage length and every buffer size, for packet encryption and decryption, the key message and the version message',
 'Tests allocate exact or obviously small buffers once; exactness, untouched surplus and unchanged state on failure are claims over all sizes.',
 [LIB,HS],[('capacity checks of packet encryption and decryption',LIB),('capacity checks of key and version messages',HS)],[],['buffer contents and Result values','retry after failure'])
p('C07','Session keys are exactly the BIP-324 derivation for role and network',
 'From the two public key encodings ordered initiator first, the local secret and the network magic, the session id, the four keys and the two garbage terminators are exactly the HKDF-SHA256 outputs BIP-324 prescribes (salt "bitcoin_v2_shared_secret" followed by the magic, the prescribed labels, terminators split 16/16 initiator first). The initiator sends with the initiator keys and receives with the responder keys, and the responder the reverse; length keys and packet keys are never exchanged.',
 ['inputs','configurations'],'every key pair, shared secret, network magic and role',
 'Vectors fix one network and few keys per role; a swapped argument, label or half shows only for particular roles or networks.',
 [LIB,HS],[('key derivation',LIB),('assignment of keys to directions',LIB),('ordering of the two public keys by role',HS)],[],['session id','traffic of both roles','garbage terminators'])
p('C08','Both ends of an undisturbed handshake arrive at the same session',
 'When an initiator and a responder on the same network exchange their messages unaltered, with any allowed garbage and any decoys on either side and any splitting of the stream, both complete with the same session id, and what either side then encrypts is what the other expects next, in both directions. The key message is the 64-byte public key followed by the garbage; the version message is the sender\'s own garbage terminator, the decoys in order and one empty genuine version packet; garbage above 4095 bytes is refused before anything is sent.',
 ['inputs','configurations','histories'],'every garbage (0 to 4095 bytes), every decoy list, both roles, every network magic, every key pair',
 'One test runs one handshake with fixed garbage and decoys; agreement must hold for all configurations and contents.',
 [HS,LIB,IO,FU],[('handshake state transitions',HS),('drivers over I/O',IO),('async driver',FU)],[],['bytes of both messages','session id','first packets after the handshake'])
p('C09','The garbage terminator is found at its first occurrence, within the limit',
 'Scanning the received bytes, the garbage ends at the first occurrence of the peer\'s terminator that lies wholly within the first 4111 bytes, and the bytes consumed are exactly the garbage plus 16. Without such an occurrence the result is a request for more data while fewer than 4111 bytes have been seen, leaving the handshake unchanged, and the no-terminator error from 4111 bytes on. The outcome does not depend on how the bytes were split over calls.',
 ['inputs','histories'],'every received byte string, terminator and split into chunks',
 'Tests place a terminator in a few positions; first-occurrence, boundary positions (4095 and 4096 garbage bytes) and split independence range over all strings.',
 [HS],[('garbage split and result mapping',HS)],[],['consumed byte count, error and later authentication'])
p('C10','Handshake garbage is authenticated by exactly the first packet each way',
 'The complete sent garbage is the associated data of the first encrypted packet the sender produces, whether that is a decoy or the version packet, and every later packet has none; the receiver likewise authenticates the complete received garbage with the first packet only. Hence garbage altered in transit, including emptied or extended garbage, makes the handshake fail at the first packet.',
 ['inputs','histories'],'every garbage on both sides, every number of decoys including zero, every alteration',
 'The handshake test checks success only for one combination; that garbage is covered once and exactly once is invisible to it for other decoy counts.',
 [HS,IO,FU],[('associated data of version and decoy packets when sending',HS),('garbage taken once when receiving',HS)],
 [('remote garbage','not yet authenticated garbage',HS)],['tag of each handshake packet','handshake failure'])
p('C11','A V1 peer is recognised by its magic and by nothing else',
 'If the first four bytes received are the network magic, the handshake stops with the V1-protocol error, in either role, before any key is derived or any version message is sent. Any other 64 bytes are treated as a V2 public key and never reported as V1.',
 ['inputs','configurations'],'every 64-byte key message, network magic and role',
 'One test covers one magic; the equivalence ranges over all magics, all near misses and both roles.',
 [HS,IO,FU],[('magic comparison on the received key',HS)],[],['error returned','bytes written after it'])
p('C12','Only a genuine packet completes the handshake; decoys are skipped in step',
 'After the garbage, every authenticated decoy packet is skipped and the first authenticated genuine packet completes the handshake whatever its contents are; an unauthenticated packet ends it with an error. The resulting session continues both directions at exactly the packet numbers that follow the packets exchanged during the handshake, with nothing reset.',
 ['inputs','histories'],'every sequence of decoys of every size before the version packet and every version contents',
 'Tests use zero to two decoys with an empty version; the claim is over all sequences and about the cipher state carried into the session.',
 [HS,LIB,IO,FU],[('version packet processing',HS),('version loops of both drivers',IO),('async',FU)],[],['VersionResult','first packets after the handshake'])
p('C13','Blocking reads deliver the peer\'s packets in order, however bytes arrive',
 'For every split of the incoming byte stream into reads, the blocking handshake followed by reads yields exactly the packets the peer sent after its version packet, in order, each with its type and contents, neither losing nor duplicating a byte, including bytes received together with handshake data. If the stream ends early the result is an error and never a fabricated or partial payload.',
 ['inputs','schedules','histories'],'every byte stream, every chunking of it, every garbage and packet sequence',
 'Tests use one cursor and one chunking; over-read boundaries and short reads vary with the schedule of the transport.',
 [IO],[('leftover bytes chained before the stream',IO),('handshake driver',IO),('packet reader',IO)],
 [('leftover handshake bytes','bytes read beyond the garbage',IO)],['payloads returned by read'])
p('C14','Async reads lose nothing under any chunking, cancellation or error',
 'For every split of the incoming stream into polls, and for every set of points at which a pending packet read is cancelled or fails with a transport error and is started again, the asynchronous reader yields exactly the peer\'s packets in order, neither losing nor duplicating a byte, including bytes received with handshake data. When the peer closes, the read returns an error instead of waiting for ever, and it never returns a partial payload.',
 ['inputs','schedules','histories','fault_sequences'],'every byte stream, poll schedule and set of cancellation and error points during reads after the handshake',
 'Tests never cancel a read or split a packet; the state kept between await points matters only under such schedules.',
 [FU],[('read state machine kept between awaits',FU),('leftover bytes before the stream',FU),('async handshake driver',FU)],
 [('read state','partial length or packet bytes',FU),('leftover position','handshake bytes already returned',FU)],['payloads returned by read'])
p('C15','Each write sends exactly its one packet, complete and flushed',
 'A successful write of a payload, blocking or asynchronous, hands the transport exactly the bytes of one packet carrying the payload\'s contents and type without associated data, completely even when the transport accepts it piecemeal, and flushes it before returning. Transport failures are returned as errors, and both interfaces send the same bytes from the same state.',
 ['inputs','schedules','histories','fault_sequences'],'every payload, every transport acceptance pattern and failure point',
 'Tests write to unbounded in-memory buffers; partial acceptance, missing flushes and failures are not exercised.',
 [IO,FU],[('packet writers',IO),('async packet writer',FU)],[],['bytes and flushes seen by the transport'])
p('C16','Memory allocated on the peer\'s word is bounded',
 'During the handshake a peer that announces a packet larger than 4000014 bytes is refused with the packet-too-big error before that packet is buffered or read, and the allocating decryption and the blocking reader refuse packets whose header and contents exceed 4000014 bytes with the same error, while packets up to the limit are accepted. Garbage buffering never exceeds the garbage limit by more than one read.',
 ['inputs'],'every announced length and every garbage stream, blocking and asynchronous handshake',
 'Tests try one oversized packet; the boundary values and the state after refusal are not tested.',
 [LIB,IO,FU],[('limit in allocating decryption',LIB),('limits in handshake drivers',IO),('async limit',FU)],[],['error for each announced length','bytes read from the transport'])
p('C17','Traffic shaping material stays within the protocol limits',
 'Whatever the random source yields, shaping material obeys the configuration: with padding disabled there is no garbage and no padding packet and with decoys disabled there are no decoys; otherwise garbage is at most 4095 bytes, at most three handshake decoys of 1 to 1024 bytes are used, and each padding or decoy packet is of decoy type with 1 to 1024 bytes. The shaper therefore never makes a handshake or a write fail by itself.',
 ['inputs','configurations'],'every random source, configuration and payload',
 'Tests use one mock random source; extreme draws such as the largest garbage are never produced.',
 [TL],[('random sizes of garbage, decoys and padding',TL)],[],['garbage and decoys handed to the handshake','padding payloads'],'shaper with a caller-supplied random source')
p('C18','Shaped writes deliver each genuine payload exactly once and in order',
 'Each write through the traffic-shaping layer, blocking or asynchronous, sends at most one decoy followed by exactly one packet with the given payload, in call order and never interleaved inside another packet, whatever background decoys are sent in between; success is reported only if the genuine packet was written, and a failure is reported to the caller of that write. Removing decoys from what the peer receives leaves exactly the payload sequence written.',
 ['inputs','schedules','histories','fault_sequences'],'every payload sequence, interleaving with background decoys, configuration and transport failure',
 'Tests construct and drop a shaped connection without writing; interleaving and failures are not exercised.',
 [TI,TF,TL],[('blocking shaped writer and its lock',TI),('async writer task and command channel',TF)],
 [('writer state','cipher and shaper behind the lock',TI)],['packets received by the peer','result of write'],'shaper with a caller-supplied random source')
p('C19','Background decoy senders end with the connection handle',
 'Once the write handle of a shaped connection has been dropped and the background sender has observed it, the sender transmits nothing further and terminates; dropping the blocking handle waits for that. Writes that were accepted before the drop are still processed first, and while the handle lives the background sender does not end.',
 ['schedules','histories'],'every interleaving of drop, pending writes and decoy timer',
 'The drop tests only check that dropping does not hang; they do not look at whether the background sender ends.',
 [TI,TF],[('shutdown flag and join',TI),('closed command channel ends the task',TF)],
 [('shutdown flag','request to stop',TI),('command channel','closed when all handles are gone',TF)],['traffic after drop','termination of the task'])
p('C20','Traffic statistics count exactly what was recorded',
 'Every recorded read or write adds exactly its bytes and one message to the matching totals and to no other, under concurrent use too. The write to read ratio is absent exactly while no bytes have been read and is otherwise bytes written divided by bytes read; shaped reads record the contents length of each payload received, shaped writes record the payload and its padding, and a new tracker measures inactivity from its creation.',
 ['inputs','histories','schedules'],'every sequence and interleaving of recordings',
 'Tests record two or three values sequentially.',
 [TL,TI,TF],[('atomic counters',TL),('recording in shaper and readers',TL)],[('counters','running totals',TL)],['ratio and totals'],'read the counters')
p('C21','Failures carry the right advice about retrying with V1',
 'Transport errors reset, aborted and unexpected end of file suggest a retry with the V1 protocol and every other kind suggests aborting; the original error is preserved. A connection closed by the peer while handshake data is being read, at any byte, yields such a retry suggestion, and internal protocol errors are reported as internal and never as transport errors.',
 ['inputs','fault_sequences'],'every transport error kind and every position at which the connection fails in the handshake',
 'Tests never fail the transport; the classification covers all kinds and all positions.',
 [IO,FU],[('error conversion',IO),('end of file in the garbage loop',IO),('async',FU)],[],['error value returned'])
p('C22','Packet type is decided by the ignore bit alone, everywhere',
 'A received packet is a decoy if and only if bit 7 of its header byte is set, whatever the reserved bits are, in every decryption entry point, in the handshake and in payloads returned to the user. Payloads built for sending as genuine or decoy report that type, and contents accessors return exactly the contents without the header byte.',
 ['inputs'],'all 256 header bytes and every contents',
 'Tests use header bytes 0 and 128 only.',
 [LIB,IO,HS],[('header byte conversion',LIB),('payload accessors',IO)],[],['packet type and contents reported'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
