"""Which modules of the extracted crate each property's proof needs, and what it assumes."""
LOW = ["", "fschacha20poly1305"]
HS = LOW + ["handshake"]
IO = HS + ["io"]
FUT = IO + ["futures"]
TRAF = FUT + ["traffic", "traffic::io", "traffic::futures"]
CRYPTO = ["ChaCha20 and ChaCha20-Poly1305 (chacha20-poly1305 crate) behave as RFC 8439: keystream XOR, tag comparison, contents untouched on a failed tag"]
KDF = ["HKDF-SHA256 (bitcoin_hashes) and ElligatorSwift ECDH (secp256k1) behave as specified; both parties of an ECDH obtain the same secret"]
CLONE = ["derived Clone implementations return equal values"]
STD = ["std::io transports: a successful read delivers the next bytes of the stream, returns 0 only at its end (or for an empty buffer), a failed read delivers nothing; write_all hands over everything or fails; Cursor, Chain and Vec behave as documented"]
TOKIO = ["tokio's AsyncReadExt/AsyncWriteExt read, read_exact, write_all, flush behave as documented over a transport that keeps its bytes in order", "async functions are verified as their sequential bodies; suspension between polls does not interleave with other users of the same &mut state (Rust ownership)"]
CANCEL = ["a pending tokio read that is dropped has consumed nothing (documented cancellation safety); every other awaited call may have had its whole effect"]
RNG = ["the random source does not return 32 zero bytes"]

LOCK = ["std Mutex: holders of the lock follow one after the other, and a lock whose holders do not panic is not poisoned",
        "a thread or task runs the function it was spawned with; join returns after its end"]
CHAN = ["tokio's unbounded channel is first in, first out, and recv returns None only when all senders are gone and everything sent was received; a oneshot channel delivers the value sent",
        "recv and tick, dropped by select!, have consumed nothing (documented cancellation safety)"]
ATOM = ["atomic counters add modulo 2^64 without losing an addition; each handle of the shared statistics is verified with its own contribution to the totals, which are their sum",
        "a read of the wall clock is at least 0 and below 2^64 ms"]
FLAG = ["the shutdown flag, once set and observed, stays set (it is checked that the code never clears it)"]
RANGE = ["Rng::gen_range returns a value of the given range; every other value of the random source is arbitrary"]

PROPS = {
    "C01": dict(modules=HS, assumptions=CRYPTO),
    "C02": dict(modules=HS, assumptions=CRYPTO),
    "C03": dict(modules=HS, assumptions=CRYPTO),
    "C04": dict(modules=HS, assumptions=CRYPTO + ["unforgeability of Poly1305 is not part of the claim: acceptance is proved equivalent to the tag being the right one"]),
    "C05": dict(modules=HS, assumptions=CRYPTO + KDF + RNG),
    "C06": dict(modules=HS, assumptions=CRYPTO),
    "C07": dict(modules=HS, assumptions=KDF),
    "C08": dict(modules=FUT, assumptions=CRYPTO + KDF),
    "C09": dict(modules=FUT, assumptions=[]),
    "C10": dict(modules=FUT, assumptions=CRYPTO),
    "C11": dict(modules=FUT, assumptions=[]),
    "C12": dict(modules=FUT, assumptions=CRYPTO),
    "C13": dict(modules=IO, assumptions=CRYPTO + STD),
    "C14": dict(modules=FUT, assumptions=CRYPTO + TOKIO + CANCEL),
    "C15": dict(modules=FUT, assumptions=CRYPTO + STD + TOKIO),
    "C16": dict(modules=FUT, assumptions=CRYPTO + STD + TOKIO),
    "C17": dict(modules=TRAF, assumptions=CRYPTO + STD + TOKIO + RANGE),
    "C18": dict(modules=TRAF, assumptions=CRYPTO + STD + TOKIO + LOCK + CHAN + ["fewer than 2^64 - 16 packets are sent in a direction"]),
    "C19": dict(modules=TRAF, assumptions=LOCK + CHAN + FLAG + ["termination is proved as: the sender ends only after, and sends nothing after, it observed the request; that it observes it (scheduling, a transport write that returns) is assumed"]),
    "C20": dict(modules=TRAF, assumptions=ATOM + STD + TOKIO),
    "C21": dict(modules=FUT, assumptions=STD + TOKIO),
    "C22": dict(modules=FUT, assumptions=[]),
}
