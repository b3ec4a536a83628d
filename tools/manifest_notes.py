NOTE["C04"] = NOTE["C05"] = (
    "TLC checks the index-with-lazy-expiry design exhaustively on a small universe; generated behaviours (adds, re-adds, wrong "
    "kinds, lookups, limited ranges, waits across real expiries, restarts and SIGKILLs during a store call for the database) run "
    "on the real store and TLC validates every answer. Kill points are random, not enumerated; loss of power is not simulated.")
NOTE["C06"] = (
    "TLC checks a step-level model of concurrent storing (and that it sees the lost update in the two-critical-section variant); "
    "real goroutines run tens of thousands of short rounds on both stores and TLC validates every distinct recorded begin/end "
    "history. Interleavings come from the Go scheduler and are not enumerated.")
NOTE["C07"] = NOTE["C08"] = (
    "TLC checks payer and payee against a network that replays and redirects vouchers (and that it sees the double credit when the "
    "payee keys by spelling or ignores the voucher's channel); generated top-up/payment/presentation histories with injected chain "
    "failures, late receipts, lanes equal modulo powers of two, lanes of 270 vouchers, forged, truncated, redirected, conditional and merging vouchers run on the real payment manager against a stand-in chain node and TLC "
    "validates every answer. Settlement and collection of a channel are not modelled.")
NOTE["C09"] = (
    "TLC checks the first-use races of the design (and that it sees them without the recheck); real goroutines, lined up by the "
    "stand-in chain node, top up, pay and receive at once, and TLC searches a sequential order explaining every recorded history "
    "and the final chain content. Interleavings inside the lock-free stretches come from the Go scheduler.")
NOTE["C10"] = (
    "TLC checks the refresh handshake (and that it sees the early return when refreshes are not serialised); generated histories of "
    "registry changes, failures, refreshes and lookups run on the real register manager against a stand-in registry and TLC "
    "validates every answer; concurrent callers run against changing listings and TLC searches an explanation of each recorded "
    "history. Interleavings come from the Go scheduler. Shutdown is not modelled.")
NOTE["C13"] = (
    "TLC checks signing against an attacker who alters, recombines and replays (and that leaving any field out of the signed bytes "
    "admits a forgery); generated histories of signing, encoding, tampering, healing, damaging and (concurrent) verification run on "
    "the real message code and TLC validates every answer and every observed content. Cryptographic strength is assumed.")
NOTE["C14"] = (
    "TLC checks a symbolic Merkle model against an attacker who presents any term with any path (and that it sees both listed "
    "weaknesses without leaf marking or list length); generated histories of offers, sub-offers, recombined proofs, altered and "
    "damaged encodings, proof elements of any length, expiries seconds to hours from now run on the real code, hashes mapped to terms, and TLC validates every answer. SHA-256 is taken as free.")
NOTE["C26"] = (
    "TLC generates histories of sends, receptions by right and wrong decoders and damaged bodies over all 60 message kinds; the real "
    "encoders and decoders run on arbitrary values and TLC validates what is received and by whom. Values are sampled, not enumerated.")
NOTE["C15"] = (
    "TLC checks the design with several callers (and that it sees the reset reputation when establishment looks first and sets "
    "later); generated histories and real goroutines run on the real reputation manager, TLC searches an order explaining every "
    "recorded answer; large unordered bulks are checked by their sum. Interleavings come from the Go scheduler.")

NOTE["C11"] = (
    "TLC checks connection pooling, locking and giving up of connections (and that it sees the stale answer when a failed connection "
    "is given up after its lock); generated histories of concurrent requests to peers that stall, cut, truncate or answer late run "
    "through the real peer-to-peer server over TCP and TLC validates whose answer each call got. Peers that send unasked messages are "
    "not modelled. Interleavings come from the Go scheduler and peer delays.")
NOTE["C12"] = (
    "TLC checks the framing of a stream against senders that pause and embed frames (and that it sees smuggled and lost messages); "
    "generated histories of messages, pieces, stalls, garbage and breaks on concurrent connections run against the real servers with "
    "random handler tables (registered types over the whole 32-bit range) and TLC validates every handler call and answer.")

GWNOTE = ("the real gateway program runs as a process among stand-in providers, peers, registry and chain node; TLC validates every answer, "
    "every message the stand-ins got and every amount against the specification. Requests are sent one at a time; deregistration is not modelled.")
NOTE["C16"] = "TLC checks the publish handlers' design guard by guard (and that dropping any guard is seen); generated histories of genuine, impersonated, altered and mixed publications and listings: " + GWNOTE
NOTE["C17"] = "Generated histories of publications and discovery requests over all free and paid routes, lifetimes, signatures and (repeated) digests, over offers alike in all but price, quality or expiry: " + GWNOTE
NOTE["C18"] = "TLC checks the paid handlers' design against replayed and insufficient vouchers (and that dropping a guard is seen); generated histories of sufficient, insufficient, replayed, forged and redirected vouchers: " + GWNOTE + " Credits start anew with each initialisation."
PVNOTE = ("the real provider program runs as a process among stand-in gateways, clients, administrator and registry; TLC validates every "
    "answer and every message the stand-ins got against the specification. Requests are sent one at a time; nonces are not checked by the code and not by the check.")
NOTE["C19"] = "Generated histories mixing every request type with initialisations (good and refused) and restarts, for gateway and provider: " + GWNOTE
NOTE["C20"] = "TLC checks the publishing design guard by guard; generated histories of publications, listings (up to 520 offers) and queries, with up to 18 gateways that acknowledge, lie, break off or stay silent: " + PVNOTE
NOTE["C21"] = "TLC checks what is put on record guard by guard against gateways that acknowledge in part or falsely; generated histories of publications, listings with 12 ways to acknowledge, key changes and queries: " + PVNOTE
NOTE["C27"] = "TLC checks the accounting of the relay's top-ups; generated histories of searches among honest, forging, silent, absent and breaking peers: " + GWNOTE
NOTE["C24"] = ("TLC checks the register's design against its store guard by guard (store failures, concurrent clients). Generated histories run against the real register program in front of "
               "a stand-in Redis that fails, loses answers, delays and outlives the service, which is restarted and killed with a command in flight; TLC validates every answer, "
               "looking for an order of concurrent requests that explains them")
NOTE["C25"] = ("Generated histories of support settings, key changes and restarts: " + GWNOTE + " The provider's list, which nothing outside shows, is read in-process: its core and handler "
    "run with gateways sending notices over TCP, alone and many at once.")
CLNOTE = ("the real client library runs in-process among scripted gateways, providers, register and chain node (HTTP on loopback); TLC validates every result, "
    "every request the gateways got, every voucher and top-up against the specification. Nil identifiers, negative amounts and one gateway listed twice in an answer are left out.")
NOTE["C22"] = "TLC checks the design against lying gateways guard by guard (and that dropping a guard is seen); generated histories of free and paid discoveries and acknowledgement queries with 20 ways of lying: " + CLNOTE
NOTE["C23"] = "TLC checks the two gateway sets guard by guard; generated histories of set operations, alone and arriving during an establishment: " + CLNOTE
NOTE["C28"] = "TLC checks amounts, alignment and maximum guard by guard; generated histories of paid discoveries with demanded and failing top-ups: " + CLNOTE
NOTE["C29"] = ("TLC checks the library's rules against whoever sits between it and the nodes, guard by guard; generated histories of calls (alone and several nodes at once) run on the real "
    "libraries among stand-in nodes that answer in 14 ways; TLC validates every result and every request the nodes got. A replayed genuine answer of the same kind cannot be told from a fresh one in this protocol and is left out.")
NOTE["C30"] = ("TLC checks the steps of one generator shared by readers and known seeds (counter, inner generator, chained state, lock), and that leaving out the lock, the moving state or the seeding's "
    "dependence on the state is seen; generated histories of reads, reseeds, kicks and draws of keys and ids, alone, by many goroutines at once and in several processes, run on the real generators, plain and "
    "under the race detector, and TLC judges the names of all parts drawn. How well the values could be guessed by one who knows the machine is left out: only repetition, gaps and races can be observed.")
