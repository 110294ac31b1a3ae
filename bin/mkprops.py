#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "Leader election is a common, order-independent, stable choice",
 "For one session identifier, block height and set of participants, every node elects the same leader whatever the order in which the participants are listed, the leader is one of the listed participants, and it stays leader when some other participant is dropped from the set. Over different sessions and heights every participant gets its turn. An empty identifier, a zero height or an empty participant list yields an error and no leader.",
 ["inputs"], "all session ids, heights, participant sets of any size and all their orderings",
 "The unit test elects once for one list; agreement is a relation between the results of different nodes, orders and subsets.",
 ["p2p/leader_provider.go", "p2p/party_coordinator.go"], [("hash ranking of participants", "p2p/leader_provider.go:LeaderNode")],
 observe=["result of the exported leader election function"])

prop("C02", "Leader-led party formation: successful nodes agree on a valid party",
 "When the elected leader is honest, all nodes that report success for the same party formation report the same set of nodes. That set contains the leader, contains only listed participants each of which asked the leader to join this very session, has no duplicates, and has at least one member more than the threshold.",
 ["schedules", "fault_sequences", "histories"], "every arrival order, loss, delay and duplication of join requests and answers, every start order, every set of absent nodes, outsiders and requests for other sessions",
 "Tests run one schedule on loopback with all or one node missing; agreement must hold over all arrival orders and losses.",
 ["p2p/party_coordinator.go", "p2p/peer_status.go"],
 [("leader collects requests and announces the party", "p2p/party_coordinator.go:joinPartyLeader"), ("membership and threshold bookkeeping", "p2p/peer_status.go:updatePeer")],
 state=[("heard", "participants that asked the leader", "p2p/peer_status.go:peersResponse")],
 observe=["return value of the exported join call on every node", "messages on the join-party-leader protocol"])

prop("C03", "Join attempts end in bounded time with the right outcome",
 "A leader-led join attempt ends no later than the configured timeout plus a bounded time for network I/O, and a leader that has heard a threshold of participants, or a member whose leader has answered, ends promptly. A member succeeds or reports 'not enough nodes' only on the answer of the elected leader, answers of anybody else having no influence; with no such answer it reports the leader as not ready. Learning during the join phase that the signature is already available ends the attempt promptly with that outcome, whether the node is leader or member and whether or not the leader ever answers.",
 ["schedules", "fault_sequences", "histories"], "every order of leader answers, impostor answers, other-session answers, signature notices and timeouts, for leaders and members",
 "Tests cover the all-good path and one missing node and never look at time, impostors or a signature notice.",
 ["p2p/party_coordinator.go"], [("member wait", "p2p/party_coordinator.go:joinPartyMember"), ("leader wait", "p2p/party_coordinator.go:joinPartyLeader"), ("leader answer filter", "p2p/party_coordinator.go:processRespMsg")],
 observe=["return value and (virtual) duration of the exported join call"])

prop("C04", "Leaderless join: success exactly when everyone was heard, promptly",
 "A leaderless join succeeds exactly when a join request of this session has arrived from every other participant before the timeout, and then it succeeds promptly. Otherwise it ends at the timeout with a timeout error. In both cases the reported online set is exactly the node itself plus the participants heard; outsiders and requests for other sessions never count.",
 ["schedules", "fault_sequences", "histories"], "every subset, order, repetition and timing of join requests from participants, outsiders and other sessions",
 "Tests check the final online count once after the full timeout; they cannot tell which nodes were reported nor when.",
 ["p2p/party_coordinator.go", "p2p/peer_status.go"], [("retry loop", "p2p/party_coordinator.go:JoinPartyWithRetry"), ("heard bookkeeping", "p2p/peer_status.go:updatePeer")],
 observe=["return value and (virtual) duration of the exported join call"])

prop("C05", "A broadcast share is accepted only with a confirmed quorum digest",
 "A broadcast share is handed to the local protocol instance once, and only once, at least the required threshold of participants (two thirds rounded up, minus one), counting the node itself, which confirms the copy it holds, have confirmed what they received for that sender and round, the share's digest is one confirmed by most of them, and at least threshold minus one of them confirm it. Each participant counts once with its first confirmation, confirmations by anyone who is not a participant count for nothing, and the share is handed over as soon as these conditions hold. A node that receives a broadcast share tells every other participant except its sender the digest of what it received.",
 ["schedules", "histories", "inputs"], "every interleaving of the share and of confirmations (agreeing, conflicting, repeated, from outsiders) for every party size",
 "Tests push two or three confirmations in one order; the rule is about all orders and all conflicting combinations.",
 ["common/tss.go", "common/tss_helper.go", "common/local_cache_item.go"], [("confirmation counting", "common/tss.go:processVerMsg"), ("digest check", "common/tss.go:hashCheck"), ("most frequent digest", "common/tss_helper.go:getHighestFreq")],
 state=[("unconfirmed messages", "share copy and confirmations per sender and round", "common/tss.go:unConfirmedMessages")],
 observe=["shares handed to the protocol instance (btss.Party.UpdateFromBytes)"])

prop("C06", "Only authentic shares of participants reach the local protocol",
 "A share is handed to the local protocol instance only if a participant of the session signed exactly that content for exactly this session, and it is attributed to that signer whoever delivered it. Every share inside one signed batch is attributed to the signer of the batch and passes the checks for the delivery kind (broadcast or addressed) that is declared for the share, and every share in it belongs to the round that is declared for the batch; a batch that says otherwise has no effect.",
 ["inputs", "histories"], "all senders, deliverers, signatures, session ids and batch contents including forged inner attributions",
 "Tests exercise one bad signature; forged attributions, replays from other sessions and mixed batches are never sent.",
 ["common/tss.go", "common/tss_helper.go"], [("signature check", "common/tss.go:processTSSMsg"), ("signed bytes", "common/tss_helper.go:verifySignature"), ("attribution of batch entries", "common/tss.go:updateLocal")],
 observe=["shares handed to the protocol instance with their attributed sender"])

prop("C07", "Each share reaches the local protocol at most once",
 "For each participant, protocol round and message being signed, at most one share ever reaches the local protocol instance successfully, however often, in however many batches and in whichever order copies of it are delivered, directly or as an answer to a request. A repeated copy neither fails the session nor keeps the other, new shares of its batch from being applied.",
 ["histories", "schedules"], "all repetitions, reorderings and re-batchings of deliveries",
 "Tests never deliver a share twice.",
 ["common/tss.go", "blame/manager.go"], [("duplicate check", "blame/manager.go:CheckMsgDuplication"), ("acceptance log", "blame/manager.go:UpdateAcceptShare")],
 observe=["shares handed to the protocol instance"])

prop("C08", "Missing-share requests and answers are exact",
 "A node that lacks the broadcast share, or holds one that differs from the digest confirmed by the quorum, asks exactly the participants that confirmed that digest for it. A node answers a request only to the requester and only with the share it accepted itself for that sender and round, unchanged. An answer is used only if it answers an outstanding request of the node, at most once per request, and undergoes the same checks as a directly delivered share.",
 ["histories", "schedules", "inputs"], "all interleavings of shares, confirmations, requests and (solicited or not) answers",
 "Tests drive one canned exchange.",
 ["common/tss.go", "common/tss_helper.go", "blame/share_mgr.go", "blame/round_mgr.go"], [("request", "common/tss.go:requestShareFromPeer"), ("serve", "common/tss_helper.go:processRequestMsgFromPeer"), ("pending requests", "blame/share_mgr.go:QueryAndDelete")],
 observe=["outgoing control messages and their destinations", "shares handed to the protocol instance"])

prop("C09", "Outgoing shares go exactly once to exactly their addressees",
 "Every share the local protocol produces leaves the node exactly once: a broadcast share goes to all other participants, an addressed share to its addressee and to nobody else. Shares of the same round and destination for all messages of the signing batch travel together in one envelope signed by the node for this session, sent when the last of them is produced and never before, with none missing, repeated or mixed with another round or destination.",
 ["schedules", "histories"], "every order in which the protocol instances of a batch produce their broadcast and addressed messages",
 "Tests send one message of one kind; the order in which instances of a batch produce messages is concurrent.",
 ["common/tss.go"], [("outgoing batches", "common/tss.go:ProcessOutCh"), ("envelope", "common/tss.go:sendBulkMsg")],
 observe=["messages put on the outgoing channel with destinations"])

prop("C10", "Blame for bad shares is sound and carries evidence",
 "When a share turns out to be invalid, or its sender is caught confirming its own broadcast share, or the confirmations received for a broadcast share admit no quorum digest, the node blames exactly the participant who signed that share. For a broadcast share the blame carries that share and its signature, which a third party can verify under the blamed participant's key. The node never blames itself or anyone outside the party, nor a participant for a share it did not sign.",
 ["histories", "inputs"], "all interleavings of good shares, bad shares, reflected copies of the node's own shares, owner confirmations and conflicting confirmations",
 "Tests trigger single canned culprits; soundness is about every history in which somebody is blamed.",
 ["common/tss.go", "blame/policy.go", "blame/blame.go"], [("invalid share blame", "common/tss.go:processInvalidMsgBlame"), ("hash check blame", "common/tss.go:applyShare"), ("wrong share owner", "blame/policy.go:TssWrongShareBlame")],
 observe=["blame record (exported blame manager)"])

prop("C11", "Timeout blame names exactly the participants that did not deliver",
 "When a key generation or signing times out because some participants did not join or stopped delivering shares, the blame reported by each honest node names only such participants and, when exactly one participant went silent, names that one; it never names the node itself or a participant whose expected shares were all received. For signing several messages at once, a participant is blamed for missing shares only if a share is missing for one of these messages.",
 ["fault_sequences", "histories"], "every round at which a participant goes silent, every subset of received shares over the batch, every set of absent nodes",
 "Tests stop one node at one point; the blame is a function of the whole receive history.",
 ["blame/policy.go", "blame/policy_helper.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go", "tss/keygen.go", "tss/keysign.go"], [("unicast blame", "blame/policy.go:GetUnicastBlame"), ("broadcast blame", "blame/policy.go:GetBroadcastBlame"), ("missing share blame", "blame/policy.go:TssMissingShareBlame"), ("node sync blame", "blame/policy.go:NodeSyncBlame")],
 observe=["blame in responses", "exported blame policy results"], hook="construct the node over an in-memory network")

prop("C12", "Finished nodes linger until all others are done",
 "A node learns that everyone is done exactly when each of the other participants has reported completion; repeated reports of one participant count once, reports by anyone who is not a participant do not count, and no sequence of reports stops or crashes the node. A node that has finished reports completion to all other participants, keeps serving them until all are done or a fixed grace period has passed, and then ends.",
 ["histories", "schedules"], "every sequence of completion reports, repetitions and foreign reports, before and after the node itself is done",
 "Tests send exactly one report per peer.",
 ["common/tss.go", "common/tss_helper.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go"], [("report counting", "common/tss.go:ProcessOneMessage"), ("report", "common/tss_helper.go:NotifyTaskDone"), ("grace period", "keygen/tss_keygen.go:GenerateNewKey")],
 observe=["task-done channel", "outgoing completion report"])

prop("C13", "Messages reach exactly the session they are addressed to",
 "A well-formed message from a peer is delivered, once, unchanged and labelled with the true peer, to the session currently subscribed for its message kind and session identifier and to no other; with no such session it is dropped. Subscribing, re-subscribing or cancelling one session or kind never affects deliveries to others, and a broadcast reaches each listed peer once, never the node itself.",
 ["histories", "schedules"], "all interleavings of subscribe, cancel, deliver and broadcast over several kinds and sessions",
 "Tests subscribe one channel and deliver one message.",
 ["p2p/communication.go", "p2p/message_id_subscriber.go"], [("subscriber lookup", "p2p/communication.go:getSubscriber"), ("broadcast", "p2p/communication.go:broadcastToPeers")],
 observe=["subscriber channels", "streams opened on the host"], hook="construct the communication layer over an in-memory host")

prop("C14", "Stream frames arrive whole and unchanged or not at all",
 "A message of up to the maximum payload size written to a stream is read back byte for byte by the other side however the network splits it, and several messages written one after another to separate streams never mix. A frame that is cut short is reported as an error, one that declares more than the maximum payload is refused at once, without waiting for or storing the declared amount, and a write that the network cuts short is reported as an error.",
 ["inputs", "fault_sequences"], "all payload sizes around the limits, all ways of chunking, all truncation points, all read/write errors",
 "Tests use a handful of sizes over an ideal stream.",
 ["p2p/stream_helper.go"], [("read", "p2p/stream_helper.go:ReadStreamWithBuffer"), ("write", "p2p/stream_helper.go:WriteStreamWithBuffer")],
 observe=["exported read and write functions on a scripted stream"])

prop("C15", "Streams of a finished session are released, others are not",
 "Releasing a session resets every stream recorded for it and every stream whose session could not be determined, each exactly once over all releases, and touches no stream of another session. A stream recorded while a release is in progress is released by that release or a later one, and never forgotten.",
 ["schedules", "histories"], "all sequences of recording and releasing over several sessions, including recordings in the middle of a release",
 "Tests add and release sequentially and look at map sizes only.",
 ["p2p/stream_helper.go"], [("release", "p2p/stream_helper.go:ReleaseStream"), ("record", "p2p/stream_helper.go:AddStream")],
 observe=["Reset calls on streams"])

prop("C16", "Waiters are released only by complete, valid signature sets",
 "A node waiting for the signatures of a session gets a signature set from a peer only if it contains exactly one signature per requested message, in order, each verifying under the pool key with its recovery id and in the one form that signers produce (lower s); invalid, incomplete or excess sets, failure notices, and notices for other sessions leave it waiting. It gets the first such set, once, and otherwise ends at its timeout or as soon as the local signing is over. No notice, however malformed, stops the node or affects another waiting session.",
 ["inputs", "histories", "schedules"], "all sequences of valid, corrupted, partial, excess, reordered, repeated and foreign notices, timeouts and local completions over several waiters",
 "Tests send one valid and one invalid notice.",
 ["keysign/notifier.go", "keysign/signature_notifier.go"], [("verification", "keysign/notifier.go:ProcessSignature"), ("dispatch", "keysign/signature_notifier.go:handleStream"), ("wait", "keysign/signature_notifier.go:WaitForSignature")],
 observe=["result of the exported wait call", "streams on the signature notifier protocol"])

prop("C17", "A successful signing response carries exactly the right signatures",
 "A signing response reports success only if it carries, for every requested message and nothing else, a signature that is labelled with that message and verifies for it under the requested pool key with the stated recovery id; all nodes that succeed for one request return the same signatures. This holds for signers and for nodes that only wait for the result, for any number, order, length and repetition of messages.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "all message batches, signer sets, leader choices, network schedules and silent nodes",
 "Tests sign one or two fixed messages on loopback and do not verify every signature against its label.",
 ["tss/keysign.go", "keysign/tss_keysign.go", "keysign/signature_notifier.go"], [("pairing", "tss/keysign.go:batchSignatures"), ("ordering", "tss/keysign.go:KeySign")],
 observe=["KeySign responses of all nodes"], hook="construct the node over an in-memory network")

prop("C18", "Key generation yields one usable key, saved on every node",
 "All participants that report success of a key generation return the same pool public key and its matching address. Each of them has by then stored, under that key, its own share with the participant list and its own identity, from which any threshold-plus-one of them can sign; a node that does not report success has not announced a key.",
 ["schedules", "fault_sequences", "configurations"], "all party sizes, schedules, leader choices, join modes and participants going silent",
 "Tests run one schedule and compare public keys only.",
 ["tss/keygen.go", "keygen/tss_keygen.go", "storage/localstate_mgr.go"], [("key generation", "keygen/tss_keygen.go:GenerateNewKey"), ("save", "keygen/tss_keygen.go:processKeyGen")],
 observe=["Keygen responses", "state manager contents"], hook="construct the node over an in-memory network")

prop("C19", "Stored key shares are durable, isolated and safe to name",
 "A key share saved for a pool key is returned unchanged for that key, also by a restarted node, until it is overwritten by a later save for the same key, and saves for other keys never change it; a key never saved gives an error. Anything that is not a valid pool public key is refused without touching the file system. A save that fails or is interrupted at any point leaves the previously saved share readable.",
 ["histories", "inputs", "crash_points", "fault_sequences"], "all sequences of saves, loads and restarts over several keys, all malformed keys, every point at which a save can be cut off",
 "Tests save and load one state once without faults.",
 ["storage/localstate_mgr.go"], [("naming", "storage/localstate_mgr.go:getFilePathName"), ("save", "storage/localstate_mgr.go:SaveLocalState"), ("load", "storage/localstate_mgr.go:GetLocalState")],
 observe=["exported state manager", "files in the base folder"])

prop("C20", "The saved address book is what is read back, and survives crashes",
 "The peer addresses read back, also after a restart, are exactly those last saved for all peers, without IPv4 loopback (127.0.0.1) addresses, each with its peer identity. A save that fails or is interrupted at any point leaves the previous address book readable, and concurrent saves and reads never yield a mixture.",
 ["histories", "crash_points", "schedules"], "all address books, all sequences of saves, reads and restarts, every cut-off point",
 "Tests save one book once without faults.",
 ["storage/localstate_mgr.go", "p2p/peer_address.go"], [("save", "storage/localstate_mgr.go:SaveAddressBook"), ("read", "storage/localstate_mgr.go:RetrieveP2PAddresses"), ("export", "p2p/peer_address.go:ExportPeerAddress")],
 observe=["exported state manager", "files in the base folder"])

prop("C21", "No peer input stops a node or its sessions",
 "Whatever bytes peers send on any of the node's protocols, and whatever fields are missing, empty, unknown or contradictory in their messages, the node neither crashes nor hangs, and a running session still accepts the well-formed messages that follow; no malformed message leaves a worker of a session behind.",
 ["inputs", "histories"], "all field-level malformations of all message kinds, in any order, in any session state",
 "Tests send a few specific bad messages.",
 ["common/tss.go", "common/tss_helper.go", "p2p/communication.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go"], [("input validation", "common/tss.go:ProcessOneMessage"), ("stream handling", "p2p/communication.go:readFromStream")],
 observe=["process survival", "later shares handed to the protocol instance", "goroutines left"])

prop("C22", "Requests for the same work share a session, different work never does",
 "Two nodes given the same set of participants (and, for signing, the same messages) join the same session whatever the order in which these are listed. Requests that differ in a participant or in a message join different sessions. Requests with no participants and messages at all, are refused.",
 ["inputs", "configurations"], "all permutations and all single changes of participant and message lists",
 "Tests compare two orders of one list.",
 ["tss/tss.go"], [("session identifier", "tss/tss.go:requestToMsgId")],
 observe=["session identifier on the network"], hook="construct the node over an in-memory network")

prop("C23", "The HTTP API passes requests and results through faithfully",
 "Every well-formed key generation or signing request posted to the HTTP API reaches the service exactly once with exactly the given fields, and the service's result is returned as JSON with every field intact; a key generation failure is answered with its blame result, a signing error with a server error status. Malformed bodies are answered with a bad-request status and other methods are refused, both without reaching the service.",
 ["inputs", "histories"], "all methods, routes, bodies and service results",
 "Tests look at status codes for a few requests and never at what reached the service.",
 ["cmd/tss/tss_http.go"], [("handlers", "cmd/tss/tss_http.go:tssNewHandler")],
 observe=["HTTP responses", "calls on the service interface"])

prop("C24", "Metrics count every attempt once, with its true outcome",
 "Every finished key generation and every finished signing attempt that got as far as forming a party or waiting for a signature increases exactly one of the success and failure counters by one, matching the outcome it reported; every party formation that such an attempt took part in does the same for the party-formation counters of its kind. No other event changes these counters.",
 ["histories", "fault_sequences"], "all sequences of attempts with all outcomes",
 "Tests call the counters directly.",
 ["monitor/metric.go", "tss/keygen.go", "tss/keysign.go"], [("counters", "monitor/metric.go"), ("call sites", "tss/keygen.go:Keygen")],
 observe=["exported counters"], hook="construct the node over an in-memory network")

prop("C25", "Key, peer and party identities map one to one",
 "Converting a node's public key to its peer identity and back, or to its party identity in a session and back to key or peer identity, gives the original, and different keys never share an identity; malformed keys or identities give errors. All nodes given the same keys in any order assign the same party identities and order, each recognising itself, and the threshold for n participants is the smallest integer not below two thirds of n, minus one.",
 ["inputs"], "all keys, all orders, all malformed inputs, all party sizes",
 "Tests convert a handful of fixed keys.",
 ["conversion/conversion.go", "conversion/key_provider.go"], [("conversions", "conversion/key_provider.go:GetPeerIDFromPubKey"), ("parties", "conversion/conversion.go:GetParties"), ("threshold", "conversion/conversion.go:GetThreshold")],
 observe=["exported conversion functions"])

prop("C26", "The recovery tool rebuilds the pool key from any sufficient shares",
 "Given the stored shares of any threshold-plus-one or more participants, in any order, the recovery tool prints the pool public key under which they were stored and the private key matching it, using as many shares as told on the command line, and the key file it exports decrypts with the given password to that private key.",
 ["inputs", "configurations"], "all sufficient subsets and orders of share files, all party sizes given on the command line",
 "The tool has no tests.",
 ["cmd/tss-recovery/tss-recovery.go", "cmd/tss-recovery/tool.go", "cmd/tss-recovery/key.go"], [("reconstruction", "cmd/tss-recovery/tss-recovery.go:main"), ("export", "cmd/tss-recovery/key.go:exportKeyStore")],
 observe=["output of the command", "exported key file"])

prop("C27", "Signing sessions are independent and end cleanly",
 "Any number of signing requests run at once on the same nodes without influencing each other: each ends, within its timeouts, with the outcome it would have had alone, and a request ending never disturbs the others. After a session has ended, however it ended, the node no longer delivers messages to it, holds none of its streams, and can run the same request again.",
 ["schedules", "histories", "fault_sequences"], "all overlaps of sessions with all outcomes, repetitions of the same request after success and after failure",
 "Tests run sessions one at a time.",
 ["tss/keysign.go", "tss/keygen.go", "p2p/communication.go", "p2p/party_coordinator.go"], [("session cleanup", "tss/keysign.go:KeySign"), ("subscriptions", "p2p/communication.go:CancelSubscribe")],
 observe=["responses", "streams", "later runs"], hook="construct the node over an in-memory network")

prop("C28", "Request admission: invalid requests are refused before any work",
 "Requests with an unparsable protocol version, with a message that is not valid base64, for an unknown pool key, or, below protocol version 0.14.0, with no or too few signers, are refused with an error or failure without any signature or key and without sending protocol messages to peers. A protocol version below 0.14.0 always uses the leaderless party formation and any other version always the leader-led one; with a leaderless signing only the listed signers take part.",
 ["inputs", "configurations"], "all versions, signer lists, message encodings and pool keys",
 "Tests cover one invalid field each and do not look at the network.",
 ["tss/keysign.go", "tss/tss.go", "conversion/tss_helper.go"], [("version gate", "conversion/tss_helper.go:VersionLTCheck"), ("checks", "tss/keysign.go:KeySign")],
 observe=["responses", "streams opened on the host"], hook="construct the node over an in-memory network")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
