#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "DHT ring holds exactly the identifiers inserted and not removed",
  "After any sequence of insertions, removals and queries, the DHT ring's size and its full content are exactly the set of distinct well-formed 32-byte identifiers (hex, in one letter case) that were inserted and not removed since. Inserting an identifier already there, removing one that is absent (whatever the ring's size), passing a malformed identifier, and running any closest or range query never change what the ring holds.",
  ["histories", "inputs"], "every sequence of Insert/Remove/GetClosest/GetWithinRange over arbitrary 256-bit identifiers",
  "The unit tests perform one or two fixed insert/remove sequences and only look at Size; they never read the content back after removing the lowest entry, or after queries that temporarily edit the ring.",
  ["common/pkg/dhtring/dhtring.go"],
  [("circular doubly linked list kept sorted by key", "common/pkg/dhtring/dhtring.go Insert/Remove"), ("temporary insert + deferred remove in queries", "common/pkg/dhtring/dhtring.go GetClosest/GetWithinRange")],
  [("head,size", "sorted ring of identifiers", "common/pkg/dhtring/dhtring.go Ring")], ["dhtring.Ring.Size", "dhtring.Ring.GetWithinRange(00..,FF..)"])

p("C02", "Closest query returns the nearest identifiers on the ring",
  "For any ring content, GetClosest(target, n, exclude) returns exactly min(n, number of members other than exclude) distinct members, never the excluded one, such that no omitted member is strictly nearer to the target, by circular distance over the 256-bit space, than a returned one; the target itself counts (distance 0) when it is a member and is not excluded. The answer is listed in clockwise order around the target: the chosen members on its counter-clockwise side from farthest to nearest, the target if it is itself a member, then those on its clockwise side from nearest to farthest (an exactly equidistant pair prefers the counter-clockwise member).",
  ["inputs", "histories"], "every ring content, target, count and exclusion, including targets that are members, exclusions that are not members, counts larger than the ring, and positions across the wrap-around point",
  "Five sample queries on one 18-entry ring; never a count larger than the ring, an excluded non-member, a two-entry ring, or a ring that has seen removals.",
  ["common/pkg/dhtring/dhtring.go"],
  [("two-pointer walk comparing accumulated distances", "common/pkg/dhtring/dhtring.go GetClosest"), ("clockwise distance modulo 2^256", "common/pkg/dhtring/dhtring.go getDist")],
  [("distPrv,distNext", "distance to each neighbour", "common/pkg/dhtring/dhtring.go ringNode")], ["dhtring.Ring.GetClosest"])

p("C03", "Range query returns exactly the members of a clockwise interval",
  "For any ring content and any two distinct well-formed bounds, GetWithinRange(start, end) returns exactly the members lying in the closed clockwise interval from start to end (wrapping through zero when end is below start), each once, in clockwise order from start. With start equal to end it returns that identifier if it is a member and nothing otherwise, and no input makes the query fail abnormally.",
  ["inputs", "histories"], "every ring content (including empty and one-entry rings) and every pair of bounds",
  "Five sample ranges on one 4-entry ring; no empty ring, equal bounds, adjacent members, or full-circle range.",
  ["common/pkg/dhtring/dhtring.go"],
  [("walk from start node to end node, temporary insertion of absent bounds", "common/pkg/dhtring/dhtring.go GetWithinRange")],
  (), ["dhtring.Ring.GetWithinRange"])

p("C04", "Provider offer store answers exactly what was stored",
  "In a provider's offer store, after any sequence of operations, looking up a CID, a digest or a CID interval returns exactly the unexpired offers accepted so far that contain that CID, have that digest, or (single-CID offers only) have their CID inside that interval up to the requested maximum, each with the content it had when it was stored (whatever the caller does with its variable afterwards) and each at most once. A multi-CID offer is accepted only through the group operation and a single-CID offer only through the DHT operation; storing the same offer again changes nothing, storing an expired one is refused, and an accepted offer disappears from every answer once its expiry has passed.",
  ["histories", "inputs"], "every sequence of adds, lookups and clock advances over offers with shared CIDs, several providers and equal or different expiries",
  "The unit tests store a handful of far-future offers once; they do not mix group and DHT offers on shared CIDs, re-adds, expiry between operations, or range limits.",
  ["common/pkg/fcroffermgr/offer_manager.go", "common/pkg/fcroffermgr/offer_storage.go"],
  [("cid map + digest map per kind, expiry filter on read", "common/pkg/fcroffermgr/offer_storage.go"), ("DHT ring index for ranges", "common/pkg/fcroffermgr/offer_manager.go")],
  [("cidMap", "cid -> digest -> offer", "common/pkg/fcroffermgr/offer_storage.go")], ["FCROfferMgr.GetOffers", "FCROfferMgr.GetOfferByDigest", "FCROfferMgr.GetDHTOffersWithinRange"])

p("C05", "Gateway offer store answers exactly what was stored",
  "In a gateway's database-backed offer store, after any sequence of operations, looking up a CID, a digest or a CID interval returns exactly the unexpired offers stored so far that contain that CID, have that digest, or have a CID in that interval (lower bound not above upper bound) up to the requested maximum, each once and with all its CIDs, price, expiry, quality of service and signature as stored. Storing the same offer again does not duplicate it; expiry does not depend on the host's time zone. The store outlives the process: after a restart it answers the same, and a store call interrupted by the death of the process leaves the whole offer or nothing of it.",
  ["histories", "inputs", "crash_points"], "every sequence of adds, lookups, clock advances, restarts and kills over offers with shared CIDs, equal digests, boundary expiries and prices",
  "The unit tests add a few offers to a fresh database and read one back; they do not vary expiry, restarts, shared CIDs among offers, limits, or long use.",
  ["common/pkg/offermgr/offer_manager.go", "common/pkg/database"],
  [("SQLite tables offer / offer_content joined by digest", "common/pkg/offermgr/offer_manager.go"), ("expiry condition in every query", "common/pkg/offermgr/offer_manager.go")],
  (), ["offermgr.FCROfferMgr.GetOffers", "GetOfferByDigest", "GetDHTOffersWithinRange"])

p("C06", "Concurrent offer storage loses nothing and shows no partial offer",
  "When several callers store and look up offers in a node's offer store at the same time, an offer whose store call has returned success, or that a finished lookup has returned, is found (until it expires) by every later lookup of each of its CIDs, of its digest and of an interval holding its CID; a lookup returns only offers whose store call has begun, each once, complete and equal to the one stored. No concurrent use makes the store crash or hang.",
  ["schedules"], "every interleaving of concurrent AddOffer/GetOffers/GetOfferByDigest/range calls on one store",
  "The existing tests use the stores from a single goroutine.",
  ["common/pkg/fcroffermgr/offer_storage.go", "common/pkg/fcroffermgr/offer_manager.go", "common/pkg/offermgr/offer_manager.go"],
  [("read/write locks around the maps", "common/pkg/fcroffermgr/offer_storage.go"), ("database transactions/inserts", "common/pkg/offermgr/offer_manager.go")],
  (), ["both offer managers' public operations"])

p("C07", "Payer's vouchers are unique, cumulative and within the deposit",
  "A payer's payment manager, for any sequence of top-ups and payments to any recipients and lanes, issues on each lane vouchers whose nonces strictly increase and whose amounts are the running total of what was paid on that lane, all drawn on the single channel it holds to that recipient. The sum over lanes of what it has promised never exceeds what it has deposited in that channel; a payment that would exceed it, or to a recipient without a channel, issues no voucher, changes nothing, and is answered by the need-top-up or error indication; and the caller's amount arguments are never altered.",
  ["histories", "inputs", "fault_sequences"], "every sequence of Topup/Pay over recipients, lanes and amounts, including failures reported by the chain node at any call",
  "The unit tests run one top-up and a couple of payments against a fixed fake node; no mixed lanes, exhaustion boundaries, or failing node calls.",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("per-channel, per-lane nonce and redeemed counters", "common/pkg/fcrpaymentmgr/payment_manager.go Pay/Topup")],
  [("outboundChs", "recipient -> channel state (balance, redeemed, lanes)", "common/pkg/fcrpaymentmgr/payment_manager.go")], ["FCRPaymentMgr.Topup", "FCRPaymentMgr.Pay", "RPC calls reaching the chain node"])

p("C08", "Payee credits only genuine vouchers, each coin once",
  "A payee's payment manager credits a presented voucher only if it decodes, is drawn on the channel it is presented for, that channel pays this payee, the voucher carries a valid signature of the channel's payer and is payable as it is (it merges no other lane and has no time lock, secret or extra condition), and the lanes' credited total stays within the channel's on-chain balance; the credit is exactly the voucher's amount minus what was already credited on that lane. Presenting a voucher again, or an older or smaller one, or the same voucher under another channel, never yields credit, so the total credited on a channel is always the sum over lanes of the highest accepted voucher amount; a refused voucher changes nothing.",
  ["histories", "inputs"], "every sequence of genuine, replayed, reordered, re-signed, cross-channel, wrong-recipient, conditional, merging and malformed vouchers on several lanes and channels",
  "The unit tests present one or two genuine vouchers to a fake node; replays, reorderings, cross-channel presentation and forged signatures are not sampled.",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("recipient, signature, nonce, amount and balance checks", "common/pkg/fcrpaymentmgr/payment_manager.go Receive")],
  [("inboundChs", "channel -> lanes with nonce and redeemed amount", "common/pkg/fcrpaymentmgr/payment_manager.go")], ["FCRPaymentMgr.Receive"])

p("C09", "Concurrent payments neither double-credit nor double-promise",
  "When payments are made and received concurrently, the outcome is the same as that of some sequential order of the calls: one voucher is credited at most once however many callers present it, no two issued vouchers share channel, lane and nonce, total promises stay within the deposit, and concurrent first top-ups for a recipient lose none of the deposited balance.",
  ["schedules"], "every interleaving of concurrent Topup, Pay and Receive calls, including first-time use of a recipient or channel while chain-node calls are in flight",
  "All existing payment tests are single threaded.",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],
  [("reader/writer lock on channel maps and per-channel locks", "common/pkg/fcrpaymentmgr/payment_manager.go")],
  (), ["FCRPaymentMgr.Topup", "FCRPaymentMgr.Pay", "FCRPaymentMgr.Receive"])

p("C10", "A node's register view is what completed refreshes fetched",
  "After a completed refresh, a node's register manager answers every lookup from what it has fetched so far: every gateway and provider that a fetched listing held is known by its id with all the addresses and keys of the latest listing that held it, and nothing else is; the closest-gateway answer (at most 16) and a gateway's CID range (from the first to the last of the up to 16 other gateways nearest to it, refused when there are fewer than two) are computed over exactly the known gateways with well-formed ids. A refresh, forced by any caller, returns only after the registry was read and applied; one that cannot reach the registry or gets an unreadable answer leaves the previous view intact; and a lookup of an unknown gateway consults the registry before reporting it absent. Concurrent lookups and refreshes obey the same rules and never hang. (Entries deleted from the registry need not disappear: the manager does not support removal.)",
  ["histories", "fault_sequences", "schedules"], "every sequence and interleaving of registry changes, registry failures, refreshes and lookups, on networks smaller and larger than 16 gateways",
  "Unit tests use mocks that return one fixed registry to a single caller; no updates, failures between refreshes, unknown ids, or concurrent callers.",
  ["common/pkg/fcrregistermgr/register_manager.go"],
  [("refresh request/completion channels, update of map and ring", "common/pkg/fcrregistermgr/register_manager.go Refresh/updateGateways/updateProviders")],
  [("registeredGatewaysMap, closestGatewaysIDs", "local mirror of the registry", "common/pkg/fcrregistermgr/register_manager.go")], ["FCRRegisterMgr.Refresh", "GetAllGateways", "GetGateway", "GetProvider", "GetGatewaysNearCID", "GetGatewayCIDRange"])

p("C11", "P2P caller gets the answer to its own request",
  "A request sent through the peer-to-peer server is answered, if at all, with the response that the addressed peer's handler produced for that same request: never another request's response, a truncated one, or one from another peer, however requests overlap, peers stall past the timeout, or connections break. After a failed or timed-out exchange, later requests to that peer still get their own answers.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of concurrent requests to the same and different peers, with responses delayed past the timeout, dropped, or connections closed at any point, and messages of any size",
  "The unit tests perform a few sequential exchanges with a well-behaved peer.",
  ["common/pkg/fcrp2pserver/server.go", "common/pkg/fcrp2pserver/pool.go", "common/pkg/fcrp2pserver/tcp_comms.go"],
  [("pool with one lock per connection, removal on error", "common/pkg/fcrp2pserver/pool.go"), ("length-prefixed frames", "common/pkg/fcrp2pserver/tcp_comms.go")],
  [("activeGateways/activeProviders", "id -> pooled connection", "common/pkg/fcrp2pserver/pool.go")], ["FCRP2PServer.RequestGatewayFromGateway and siblings"])

p("C12", "Messages are dispatched only to the handler of their own interface",
  "On every listener of the REST server and of the P2P server, a message is processed by exactly the handler registered for that (listener, message type) pair, exactly once, and its response goes back to its sender; a message type registered only on another listener (for example an administration request sent to the client or peer port) or not at all is never processed and is answered as an invalid request. Malformed or oversized input on one connection never stops the servers from answering others.",
  ["inputs", "histories", "schedules"], "every (listener, message type) pair and any sequence of well-formed, unknown and malformed inputs on concurrent connections",
  "Tests register one or two handlers and send matching messages only.",
  ["common/pkg/fcrrestserver/server.go", "common/pkg/fcrp2pserver/server.go", "gateway/cmd/gateway/main.go", "provider/cmd/provider/main.go"],
  [("handlers[listenAddr][msgType] maps", "common/pkg/fcrrestserver/server.go, common/pkg/fcrp2pserver/server.go")],
  (), ["HTTP /v1 responses", "TCP responses", "handler invocations"])

p("C13", "Only an untouched message verifies against its signer's key",
  "A message signed with a private key verifies with the matching public key if and only if its type, protocol versions, body and signature are what was signed, and never with another key; this stays true after any encoding/decoding round trip and after any earlier verification, successful or not, of the same message. Verifying malformed signatures or malformed encodings reports an error and does not crash.",
  ["inputs", "histories"], "every message, key, mutation of any field or of the encoded bytes, and sequence of sign/encode/decode/verify calls",
  "Tests check one sign/verify round trip; not mutations of every field or repeated verification.",
  ["common/pkg/fcrmessages/fcrmessage.go", "common/pkg/fcrcrypto"],
  [("signature over serialised message with empty signature field", "common/pkg/fcrmessages/fcrmessage.go Sign/Verify")],
  (), ["FCRMessage.Sign", "FCRMessage.Verify", "FCRMessageToBytes/FromBytes"])

p("C14", "Offers and sub-offers cannot be altered or claim foreign CIDs",
  "An offer verifies only if its provider, price, expiry, quality of service and list of CIDs are exactly those its provider signed; a sub-offer generated from an offer for one of its CIDs verifies (signature and Merkle proof), and changing any of its fields, its CID, its proof or its Merkle root makes verification fail. No sub-offer can be produced or made to verify for a CID outside the offer, and malformed offers, proofs and encodings are rejected without crashing.",
  ["inputs"], "every offer (any number and order of CIDs), every CID, and every mutation or recombination of sub-offer fields from several offers",
  "Tests build a few offers and flip one or two fields.",
  ["common/pkg/cidoffer/cidoffer.go", "common/pkg/cidoffer/subcidoffer.go", "common/pkg/fcrmerkletree"],
  [("signature over provider id, Merkle root, price, expiry, QoS", "common/pkg/cidoffer/cidoffer.go"), ("Merkle inclusion proof", "common/pkg/fcrmerkletree/proof.go")],
  (), ["CIDOffer.Verify", "SubCIDOffer.Verify", "SubCIDOffer.VerifyMerkleProof"])

p("C15", "Reputation stays in bounds and reflects every event",
  "A client's reputation at a gateway starts at the initial value when the client first establishes, never leaves the fixed [minimum, maximum] interval through reputation events, and equals the initial value changed by exactly the recorded events in order with saturation at the bounds, however many events arrive concurrently. A client is established at most once (a repeated or concurrent establishment never resets its reputation), and an unknown client is reported as absent.",
  ["histories", "schedules"], "every sequence and interleaving of establishments and reputation events for several clients",
  "Unit tests exercise each event once sequentially.",
  ["gateway/internal/reputation/reputation.go", "gateway/internal/reputation/reputation_constants.go", "gateway/internal/api/clientapi/establishment_handler.go"],
  [("mutex-protected map with clamped add", "gateway/internal/reputation/reputation.go")],
  [("clients", "client id -> reputation", "gateway/internal/reputation/reputation.go")], ["reputation API", "admin get-reputation answer"])

p("C16", "Gateway stores and acknowledges only authentic published offers",
  "A gateway stores a published offer only if it came in a message signed with the registered key of a registered provider and the offer names that provider and carries its valid signature, and, for a DHT publication, has one CID. It acknowledges a publish message only if every offer of it qualifies; the acknowledgement of a DHT publication is signed by the gateway over the exact publishing message, and by then every offer of that message is findable at the gateway. The same holds for publish messages a provider hands over when the gateway lists its offers: the acknowledgements sent back are for exactly the messages of that provider all of whose offers qualify.",
  ["inputs", "histories"], "every publish message and listing: unregistered or impersonated provider, wrong keys, tampered, foreign-named or several-CID offers at any position, duplicates, expired ones, replays, changes of the registered key, restarts",
  "There are no tests of the gateway's publish handlers.",
  ["gateway/internal/api/providerapi/publish_dht_offer_handler.go", "gateway/internal/api/providerapi/publish_group_offer_handler.go", "gateway/internal/api/gatewayapi/list_dht_offer_requester.go"],
  [("registered signing key lookup, message and offer signature checks", "gateway/internal/api/providerapi")],
  (), ["provider-facing TCP port", "listing requests", "subsequent discovery answers"])

p("C17", "Gateway answers discovery with exactly its stored offers, signed",
  "An initialised gateway answers a standard or peer discovery request for a CID with a message signed by its registered key that echoes the request's nonce and CID and lists exactly the unexpired offers it stores for that CID as verifiable sub-offers (found is true exactly when there is at least one); an offer request by digests returns the sub-offer of that CID for exactly the digests it stores. A request whose time-to-live has passed is not served, and no well-formed request, known or unknown CID or digest, makes the gateway fail.",
  ["inputs", "histories"], "every sequence of publications and discovery requests over any CIDs, digests, nonces and TTLs",
  "There are no tests of the gateway's discovery handlers outside container-based end-to-end runs.",
  ["gateway/internal/api/clientapi", "gateway/internal/api/gatewayapi", "common/pkg/offermgr/offer_manager.go"],
  [("discovery handlers build sub-offers from stored offers and sign", "gateway/internal/api/clientapi/standard_discover_handler.go")],
  (), ["client REST port", "gateway TCP port"])

p("C18", "Gateway serves paid discovery only against sufficient new payment",
  "A gateway hands out the paid content of a discovery exchange (the offers of an offer request, the digests or search of a version-2 discovery, the peers' offers of a DHT offer request) only if the voucher in that request brought new credit of at least its configured price for it; an insufficient, replayed or invalid payment is answered with a refusal carrying none of that content. The configured prices are the same for every request, whatever requests were served before.",
  ["histories", "inputs"], "every sequence of paid requests with sufficient, insufficient, replayed, invalid and missing vouchers",
  "No test drives the paid handlers; the end-to-end suite only pays the right amount.",
  ["gateway/internal/api/clientapi", "gateway/internal/api/gatewayapi"],
  [("PaymentMgr.Receive then comparison with Settings.SearchPrice/OfferPrice", "gateway/internal/api/clientapi, gateway/internal/api/gatewayapi")],
  [("Settings.SearchPrice, Settings.OfferPrice", "configured prices", "gateway/internal/util/settings")], ["client REST port", "gateway TCP port"])

p("C19", "A node does nothing for others before an administrator initialises it",
  "Until a node has been given its key through its administration interface, every client, peer and administrative operation that needs its identity is refused without effect and without crashing it. After initialisation it signs with exactly the given key and key version.",
  ["histories", "inputs"], "every request type sent before initialisation in any order, and after it",
  "End-to-end tests always initialise first.",
  ["gateway/internal/api", "provider/internal/api"],
  [("GatewayPrivateKey/ProviderPrivateKey == nil guards", "handlers")],
  (), ["client, admin and peer ports"])

p("C20", "Provider publishes each offer to the right gateways and keeps it",
  "Publishing a batch of DHT offers sends each offer, signed under the provider's current key, to exactly the 16 registered gateways nearest to its CID (to all if there are fewer), and publishing a group offer sends it to every registered gateway; a publication whose lists do not match is refused without effect. The administrator's list of published offers, of the gateways asked for or of all, contains every offer that such a gateway acknowledged when it was published to it and no offer that none of them has acknowledged. A registered gateway that asks under its key for a CID interval is given exactly the published, unexpired DHT offers with a CID in that (clockwise) interval, as signed and at most 500 of them; anybody else is given none.",
  ["histories", "inputs", "configurations"], "every batch of CIDs (one or many), prices and gateway sets, any sequence of publications and listings, and gateways that acknowledge, refuse, lie, break off or stay silent",
  "No tests of the provider's admin handlers; the end-to-end suite publishes one offer at a time and checks discovery.",
  ["provider/internal/api/adminapi/publish_dht_offer_handler.go", "provider/internal/api/adminapi/publish_group_offer_handler.go", "provider/internal/api/providerapi", "provider/internal/api/adminapi/get_published_offer_handler.go", "provider/internal/api/gatewayapi/list_dht_offer_handler.go"],
  [("offer creation, storage and fan-out", "provider/internal/api/adminapi"), ("listing of an interval in messages of 50 offers", "provider/internal/api/gatewayapi/list_dht_offer_handler.go")],
  [("NodeOfferMap", "gateway -> acknowledged offers", "provider/internal/core/core.go")], ["what each gateway receives", "admin list-offers answer", "gateway-facing TCP port"])

p("C21", "Provider only records and serves genuine DHT acknowledgements",
  "For a CID and gateway, a provider reports a publication acknowledgement to a client exactly when that gateway acknowledged, under its registered key, a publish message of this provider containing an offer for that CID, whether the message was published to it or listed for it; what it returns is such a publish message, signed by the provider, and the acknowledgement the gateway signed over it. A missing, unsigned, wrongly signed or mismatched acknowledgement is never recorded, and does not keep the genuine ones beside it from being recorded.",
  ["histories", "inputs", "fault_sequences"], "every sequence of publications, listings, (mis)acknowledging gateways, key changes and acknowledgement queries",
  "No tests of acknowledgements other than one end-to-end happy path.",
  ["provider/internal/api/providerapi/publish_dht_offer_requester.go", "provider/internal/api/gatewayapi/list_dht_offer_handler.go", "provider/internal/api/clientapi/dht_offer_ack_handler.go"],
  [("signature check before storing in the acknowledgement map", "provider/internal/api")],
  [("AcknowledgementMap", "cid -> gateway -> (message, ack)", "provider/internal/core/core.go")], ["client-facing ack query", "gateway-facing TCP port"])

p("C22", "Client library hands over exactly the genuine offers it received",
  "Every offer the client library returns from any of its discovery operations (free or paid, from one gateway or over the DHT) is for the CID searched for, signed by the registered provider it names, with a valid Merkle proof, and arrived in a response signed by the gateway asked and echoing the request (over the DHT: inside an answer signed by the registered gateway it is listed under); whatever else gateways send is dropped or reported as an error, every genuine offer that was asked for is handed over, and never more than the maximum. An acknowledgement query succeeds exactly for an acknowledgement that the named gateway signed over a publish message that the provider signed and that contains the CID.",
  ["inputs", "histories", "fault_sequences"], "every response (malicious or faulty) gateways or a provider can return: tampered, swapped, foreign or cross-provider offers, wrong signers, wrong CIDs and nonces, mixed with genuine ones in any position, with provider keys that change meanwhile",
  "Client tests cover settings and key handling only; discovery runs only in container-based end-to-end tests against honest gateways.",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/api/clientapi"],
  [("per-offer signature, CID and Merkle verification", "client/pkg/fcrclient/filecoin_retrieval_client.go"), ("response signature/nonce/CID checks", "client/pkg/api/clientapi")],
  (), ["FilecoinRetrievalClient.Find* results"])

p("C23", "Client uses only chosen gateways that proved their identity",
  "A gateway is in the client's active set only if it is in the to-use set, was found in the register with valid information, and answered a fresh establishment challenge with the same challenge and its own id under its registered key; removing it from the to-use set also removes it from the active set, also when that happens while it is being established. Every operation on the two sets changes and counts exactly what it was given. Discovery contacts only the gateway asked for, and only if it is active. Finding gateways gives registered gateways of the region, no more than asked for.",
  ["histories", "inputs", "fault_sequences"], "every sequence of add/remove operations on both sets with honest, silent, lying, replaying and unregistered gateways, with operations that arrive while another gateway is being asked",
  "No tests of the client's gateway sets.",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/fcrclient/register_validation.go", "client/pkg/api/clientapi/establishment_requester.go"],
  [("AddActiveGateways challenge/response", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  [("ActiveGateways, GatewaysToUse", "client's two gateway sets", "client/pkg/fcrclient/filecoin_retrieval_client.go")], ["GetActiveGateways", "GetGatewaysToUse", "FindGateways"])

p("C28", "Client pays each paid request exactly what it owes",
  "Every paid discovery request of the client library carries a voucher on a channel to the gateway it is sent to that adds exactly the configured price times what is asked for (search price once, or per DHT gateway; offer price per digest); the digests bought are the first ones offered in properly signed answers up to the maximum, each asked of the gateway that offered it; channels are opened and topped up only when a balance does not suffice or the gateway asks for it, by the configured amount; when the chain refuses, the operation fails and nothing more is sent or paid.",
  ["inputs", "histories", "fault_sequences"], "every sequence of paid discoveries from several gateways with prices, top-up amounts, answers that ask for payment, lie about or omit digests, and a chain that refuses",
  "No test runs a paid discovery of the client.",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go", "client/pkg/api/clientapi", "common/pkg/fcrpaymentmgr"],
  [("payment and top-up before each paid request", "client/pkg/fcrclient/filecoin_retrieval_client.go")],
  [("paymentMgr", "payment channels to the gateways", "client/pkg/fcrclient/filecoin_retrieval_client.go")], ["vouchers in the requests gateways receive", "messages pushed to the chain node"])

p("C29", "Administration libraries report done only what the node confirmed",
  "Each call of the gateway and provider administration libraries puts exactly what was asked, signed under the administrator's key, once, to the administration address the register gives for that node and to nobody else. The call succeeds exactly when the answer is of the kind that belongs to the request, is signed under that node's registered key, and says that it was done (for a reputation: of that client and, when set, of that value); the offers and reputations reported are those the node sent. A node counts as taken on, under the key and address it then had, only once it has confirmed that, and publishing, listing and refreshing reach only nodes taken on. Any refusal, forgery, damage or loss of the answer makes the call fail and changes nothing.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every sequence of calls to several nodes, one after the other or at once, with extreme and alike values, nodes whose keys and addresses change, and answers that are unsigned, altered, retyped, of another kind, under another key, refused, cut or lost",
  "The administration libraries are tested with mocks that answer one fixed way.",
  ["gateway-admin/pkg/fcrgatewayadmin", "gateway-admin/pkg/api/adminapi", "provider-admin/pkg/fcrprovideradmin", "provider-admin/pkg/api/adminapi", "common/pkg/request/request.go"],
  [("response verification and kind and success checks", "gateway-admin/pkg/api/adminapi"), ("response verification and kind and success checks", "provider-admin/pkg/api/adminapi")],
  [("ActiveGateways", "gateways taken on", "gateway-admin/pkg/fcrgatewayadmin/filecoin-gateway-admin.go"), ("ActiveProviders", "providers taken on", "provider-admin/pkg/fcrprovideradmin/filecoin_provider_admin.go")], ["results of the library calls", "requests the nodes receive"])

p("C30", "Random values, keys and identifiers are fresh and whole",
  "Every read from the random number generators fills exactly the whole buffer asked for, of any length, and nothing before or after it. No part of what is drawn is ever given out again: not to a later read, not to another reader of the same generator, not by another generator (whatever name it was made for), not in another process, and neither after reseeding with a seed used before nor after kicks. Making, reading, reseeding and kicking generators at once by any number of users neither crashes nor leaves a generator out of the reseeding, and making one leaves the caller's name and the memory behind it as they were. Keys, node ids and content ids drawn from them are distinct, valid and come through their encodings unchanged.",
  ["schedules", "inputs", "histories"], "any number of generators made, read (any length), reseeded (any seed, also a known one used again) and kicked in any order or at once, in any number of processes, and keys and ids drawn meanwhile",
  "The tests read a few fixed lengths from one generator in one goroutine.",
  ["common/pkg/fcrcrypto/prng.go", "common/pkg/fcrcrypto/prng_pool.go", "common/pkg/fcrcrypto/prng_public.go", "common/pkg/fcrcrypto/prng_private.go", "common/pkg/fcrcrypto/secp256k1.go", "common/pkg/nodeid", "common/pkg/cid"],
  [("ReadBytes: counter, DRBG and chained state", "common/pkg/fcrcrypto/prng.go"), ("Reseed and QuickReseedKick", "common/pkg/fcrcrypto/prng.go")],
  [("prfState, prfCounter, drbg", "state of one generator", "common/pkg/fcrcrypto/prng.go"), ("prngPool", "generators reseeded together", "common/pkg/fcrcrypto/prng_pool.go")], ["bytes read from generators", "generated keys and ids"])

p("C24", "Register service is a faithful map of registrations",
  "The register service answers, for any number of requests and clients, as if they were made one after the other on two separate maps: a gateway or provider is returned by its id and in the list with exactly the data last registered under that id, unknown ids are reported absent, deletion removes all registrations of one kind at once, and refused requests change nothing. Registrations survive restarts and crashes of the service, failures of its store and any length of time; while the store fails, a request is answered by an error (never by a false answer) and has taken effect as a whole or not at all. Registering through the register manager reports success only if the service accepted the registration.",
  ["histories", "schedules", "crash_points", "fault_sequences", "inputs"], "every sequence of registrations, lookups, lists and deletions on gateways and providers, by one or several clients, of any ids and data, with restarts, crashes at any store command and every kind of store failure",
  "The register module has no behavioural tests.",
  ["register/internal/handlers", "register/restapi", "register/cmd/register-server", "common/pkg/fcrregistermgr/register_manager.go", "common/pkg/request/request.go"],
  [("HSET/HGET/HGETALL/DEL on the hashes 'gateway' and 'provider'", "register/internal/handlers"), ("RegisterGateway/RegisterProvider", "common/pkg/fcrregistermgr/register_manager.go")],
  [("gateway, provider", "Redis hashes from node id to the registration", "register/internal/handlers")], ["HTTP API of the register service", "RegisterGateway/RegisterProvider of the register manager"])

p("C25", "Group-CID support changes reach the provider and take effect",
  "When an administrator tells a gateway which providers' group-CID offers it supports, the gateway tells every registered provider, signed under its own key, whether it is one of them. A provider's list of gateways entitled to its group offers holds, once each, exactly the gateways whose last notice was enabling, also when many notices arrive at once; a notice not signed under the registered key of the gateway it names is refused and changes nothing.",
  ["histories", "inputs"], "every sequence of enable/disable notices from several gateways, repeated and forged",
  "No tests of these handlers.",
  ["gateway/internal/api/adminapi/set_group_cid_support.go", "gateway/internal/api/gatewayapi/notify_group_cid_offer_supported.go", "provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go"],
  [("notice handler maintaining the list of supporting gateways", "provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go")],
  [("GroupOfferGatewayIDs", "gateways entitled to group offers", "provider/internal/core/core.go")], ["group offer fan-out", "notice response"])

p("C26", "Every protocol message is decoded as exactly what was sent",
  "For every kind of protocol message, decoding what was encoded, after any trip over the wire, gives exactly the values given to the encoder, of any size and content, and the message keeps its signature; a message is never accepted as one of another kind, and a DHT publication with an offer of several CIDs is refused. A damaged or hand-made body is either refused with an error or decoded to values that can be used: no decoder and no use of what it returned crashes the node.",
  ["inputs"], "every message kind with every combination of values (extreme numbers, empty and large lists, any identifiers, offers, proofs and nested messages), every pair of kinds, and every damage of an encoded body",
  "Each kind has a test with one or two fixed values, few of them malformed.",
  ["common/pkg/fcrmessages", "common/pkg/cid/cid.go", "common/pkg/nodeid/nodeid.go", "common/pkg/cidoffer", "common/pkg/fcrmerkletree/proof.go"],
  [("type check and field checks of every decoder", "common/pkg/fcrmessages")],
  (), ["Encode*/Decode* of package fcrmessages"])

p("C27", "DHT relay asks the right gateways, pays each exactly, passes on genuine answers",
  "A gateway that searches the DHT for a client asks exactly the min(n, 16) gateways nearest to the CID other than itself (for an offer request: exactly the gateways named), pays each of them exactly its price for what it is asked, and answers with the unaltered answers, verified under their registered keys, of those that gave one, naming the others as not contacted; it never asks or pays anyone for a request the client has not sufficiently paid.",
  ["inputs", "histories", "fault_sequences"], "every sequence of DHT discoveries (free, paid, offer requests) with any numbers of gateways and any mix of honest, silent, absent, forging and breaking peers, with payment channels that run dry in between",
  "No test drives the relay; the end-to-end suite has honest gateways only.",
  ["gateway/internal/api/clientapi/dht_discover_handler.go", "gateway/internal/api/clientapi/dht_discover_handler_v2.go", "gateway/internal/api/clientapi/dht_discover_offer_handler.go", "gateway/internal/api/gatewayapi"],
  [("nearest-gateway selection, requesters, payment and top-up per peer", "gateway/internal/api/clientapi, gateway/internal/api/gatewayapi")],
  (), ["client REST port", "requests and vouchers the peers receive"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
