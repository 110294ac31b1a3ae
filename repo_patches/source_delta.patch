From bcdfabc48323b4972ac1ed512e71e09a7f622dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 01/23] verif: hooks to run nodes over a given host (build tag
 verif)

---
 p2p/verif_hook.go | 22 ++++++++++++++++++++
 tss/verif_hook.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)
 create mode 100644 p2p/verif_hook.go
 create mode 100644 tss/verif_hook.go

diff --git a/p2p/verif_hook.go b/p2p/verif_hook.go
new file mode 100644
index 0000000..9d5a23c
--- /dev/null
+++ b/p2p/verif_hook.go
@@ -0,0 +1,22 @@
+//go:build verif
+// +build verif
+
+package p2p
+
+import (
+	"github.com/libp2p/go-libp2p-core/host"
+)
+
+// NewCommunicationForHost starts the communication layer on a given host instead of a libp2p host of its own.
+// It only exists in verification builds.
+func NewCommunicationForHost(h host.Host) (*Communication, error) {
+	c, err := NewCommunication("verif", nil, 0, "")
+	if err != nil {
+		return nil, err
+	}
+	c.host = h
+	h.SetStreamHandler(TSSProtocolID, c.handleStream)
+	c.wg.Add(1)
+	go c.ProcessBroadcast()
+	return c, nil
+}
diff --git a/tss/verif_hook.go b/tss/verif_hook.go
new file mode 100644
index 0000000..e41233e
--- /dev/null
+++ b/tss/verif_hook.go
@@ -0,0 +1,51 @@
+//go:build verif
+// +build verif
+
+package tss
+
+import (
+	"sync"
+
+	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
+	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
+	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/libp2p/go-libp2p-core/host"
+	"github.com/rs/zerolog/log"
+	tcrypto "github.com/tendermint/tendermint/crypto"
+
+	"gitlab.com/thorchain/tss/go-tss/common"
+	"gitlab.com/thorchain/tss/go-tss/keysign"
+	"gitlab.com/thorchain/tss/go-tss/monitor"
+	"gitlab.com/thorchain/tss/go-tss/p2p"
+	"gitlab.com/thorchain/tss/go-tss/storage"
+)
+
+// NewTssForHost creates a TssServer on a given host instead of a libp2p host of its own.
+// It only exists in verification builds.
+func NewTssForHost(h host.Host, priKey tcrypto.PrivKey, conf common.TssConfig, preParams *bkeygen.LocalPreParams, stateManager storage.LocalStateManager, metrics *monitor.Metric) (*TssServer, error) {
+	pk := coskey.PubKey{
+		Key: priKey.PubKey().Bytes()[:],
+	}
+	pubKey, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &pk)
+	if err != nil {
+		return nil, err
+	}
+	comm, err := p2p.NewCommunicationForHost(h)
+	if err != nil {
+		return nil, err
+	}
+	return &TssServer{
+		conf:              conf,
+		logger:            log.With().Str("module", "tss").Logger(),
+		p2pCommunication:  comm,
+		localNodePubKey:   pubKey,
+		preParams:         preParams,
+		tssKeyGenLocker:   &sync.Mutex{},
+		stopChan:          make(chan struct{}),
+		partyCoordinator:  p2p.NewPartyCoordinator(h, conf.PartyTimeout),
+		stateManager:      stateManager,
+		signatureNotifier: keysign.NewSignatureNotifier(h),
+		privateKey:        priKey,
+		tssMetrics:        metrics,
+	}, nil
+}
-- 
2.43.0


From 04eb903b9aea8154bdf0384d2c9acc9f7bb38f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 02/23] fix: do not leak share workers when a batch is refused
 half way

---
 common/tss.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..abc2f8e 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -253,13 +253,8 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		return err
 	}
 
-	worker := runtime.NumCPU()
-	tssJobChan := make(chan *tssJob, len(bulkMsg))
-	jobWg := sync.WaitGroup{}
-	for i := 0; i < worker; i++ {
-		jobWg.Add(1)
-		go t.doTssJob(tssJobChan, &jobWg)
-	}
+	// the whole batch is checked before any share of it is applied
+	var jobs []*tssJob
 	for _, msg := range bulkMsg {
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
@@ -304,6 +299,17 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		}
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
+		jobs = append(jobs, job)
+	}
+
+	worker := runtime.NumCPU()
+	tssJobChan := make(chan *tssJob, len(jobs))
+	jobWg := sync.WaitGroup{}
+	for i := 0; i < worker; i++ {
+		jobWg.Add(1)
+		go t.doTssJob(tssJobChan, &jobWg)
+	}
+	for _, job := range jobs {
 		tssJobChan <- job
 	}
 	close(tssJobChan)
-- 
2.43.0


From fcca98f3e23cddf3e0da9cb06072d0689a61ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 03/23] fix: refuse batches whose shares claim another sender
 or delivery than the signed batch

---
 common/tss.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index abc2f8e..fb52c30 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -256,6 +256,13 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	// the whole batch is checked before any share of it is applied
 	var jobs []*tssJob
 	for _, msg := range bulkMsg {
+		// only the owner of the batch is authenticated, and the batch has been checked for one kind of delivery only
+		if msg.Routing == nil || msg.Routing.From == nil ||
+			msg.Routing.From.Id != wireMsg.Routing.From.Id ||
+			msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			t.logger.Error().Msg("the routing of the share does not match the routing of its batch")
+			return errors.New("invalid routing in the batch")
+		}
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
 			t.logger.Error().Msg("cannot find the party to this wired msg")
-- 
2.43.0


From b6895b1823e6f43285f525e57917c46935304f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 04/23] fix: apply a share that is repeated within one batch
 only once

---
 common/tss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index fb52c30..276d8e6 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -255,6 +255,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 
 	// the whole batch is checked before any share of it is applied
 	var jobs []*tssJob
+	seen := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		// only the owner of the batch is authenticated, and the batch has been checked for one kind of delivery only
 		if msg.Routing == nil || msg.Routing.From == nil ||
@@ -285,11 +286,13 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		// here we use round + msgIdentifier as the key for the acceptedShares
 		round.MsgIdentifier = msg.MsgIdentifier
 		// if this share is duplicated, we skip this share
-		if t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
+		if seen[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
 
+		seen[round] = true
+
 		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
 			for _, each := range l {
 				if el == each {
-- 
2.43.0


From 3b687427babda58eb4f0aa4977b8c34052ac4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 05/23] fix: ignore share confirmations from peers that are not
 part of the session

---
 common/tss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 276d8e6..475cfc2 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -654,6 +654,15 @@ func (t *TssCommon) requestShareFromPeer(localCacheItem *LocalCacheItem, thresho
 	}
 }
 
+func (t *TssCommon) isParticipant(peerID string) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el.String() == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) processVerMsg(broadcastConfirmMsg *messages.BroadcastConfirmMessage, msgType messages.THORChainTSSMessageType) error {
 	t.logger.Debug().Msg("process ver msg")
 	defer t.logger.Debug().Msg("finish process ver msg")
@@ -664,6 +673,9 @@ func (t *TssCommon) processVerMsg(broadcastConfirmMsg *messages.BroadcastConfirm
 	if nil == partyInfo {
 		return errors.New("can't process ver msg , local party is not ready")
 	}
+	if !t.isParticipant(broadcastConfirmMsg.P2PID) {
+		return fmt.Errorf("ignore the confirmation from the non participant %s", broadcastConfirmMsg.P2PID)
+	}
 	key := broadcastConfirmMsg.Key
 	localCacheItem := t.TryGetLocalCacheItem(key)
 	if nil == localCacheItem {
-- 
2.43.0


From 114429265d3d40e30e9e3864d13b3562786cbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 06/23] fix: ignore reflected copies of the node's own shares

---
 common/tss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 475cfc2..c024c7c 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -781,6 +781,10 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		t.logger.Error().Msg("fail to verify the signature")
 		return errors.New("signature verify failed")
 	}
+	// nobody needs to tell us our own shares, they may only be reflected to get us to blame ourselves
+	if ownerPeerID, ok := t.PartyIDtoP2PID[dataOwner.Id]; ok && ownerPeerID.String() == t.localPeerID {
+		return errors.New("ignore our own share sent by a peer")
+	}
 
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
-- 
2.43.0


From db07c4b477b476fea4abdcf2c3ef8ec1067e4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/23] fix: end the leaderless join party as soon as all the
 peers are found

---
 p2p/party_coordinator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..134eeec 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -528,15 +528,16 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
+		timeout := time.After(pc.timeout)
 		for {
 			select {
-			case <-peerGroup.notify:
+			case <-peerGroup.newFound:
 				pc.logger.Debug().Msg("we have found the new peer")
 				if peerGroup.getCoordinationStatus() {
 					close(done)
 					return
 				}
-			case <-time.After(pc.timeout):
+			case <-timeout:
 				// timeout
 				close(done)
 				return
-- 
2.43.0


From 774aaa7c5262d8d9a5333fe5c61eb7e0a6fbfdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 08/23] fix: report the received signature instead of blaming
 the leader that has not answered yet

---
 p2p/party_coordinator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 134eeec..21c51b1 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -381,6 +381,10 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}()
 	wg.Wait()
 
+	if sigNotify == "signature received" {
+		return nil, ErrSignReceived
+	}
+
 	if peerGroup.getLeaderResponse() == nil {
 		leaderPk, err := conversion.GetPubKeyFromPeerID(leader)
 		if err != nil {
@@ -390,10 +394,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 		return nil, ErrLeaderNotReady
 	}
 
-	if sigNotify == "signature received" {
-		return nil, ErrSignReceived
-	}
-
 	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
 	// we trust the returned nodes returned by the leader, if tss fail, the leader
 	// also will get blamed.
-- 
2.43.0


From 1ea4f5280737d81b2b3ead4bce2482e11fba28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 09/23] fix: stop waiting as the join party leader once the
 signature is received

---
 p2p/party_coordinator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 21c51b1..ea794a8 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -444,6 +444,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 				return
 			case result := <-sigChan:
 				sigNotify = result
+				return
 			}
 		}
 	}()
-- 
2.43.0


From b502d3828deef3368c4b76dfc87dab06dca20c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 10/23] fix: forget the peers of a finished join party and do
 not block on repeated leader responses

---
 p2p/party_coordinator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index ea794a8..dbc22d3 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -77,7 +77,11 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		select {
+		case peerGroup.notify <- true:
+		default:
+			// the member has been notified already
+		}
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
@@ -483,6 +487,7 @@ func (pc *PartyCoordinator) JoinPartyWithLeader(msgID string, blockHeight int64,
 	if err != nil {
 		return nil, "", err
 	}
+	defer pc.removePeerGroup(msgID)
 	if pc.host.ID().String() == leader {
 		onlines, err := pc.joinPartyLeader(msgID, peers, threshold, signChan)
 		return onlines, leader, err
-- 
2.43.0


From 1a1e7947705abc10272ad6e49533a0e4baa4c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 11/23] fix: release every stream exactly once, also those
 added during a release

---
 p2p/stream_helper.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..8449573 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,17 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
-	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	sm.streamLocker.Lock()
+	streams := append([]network.Stream{}, sm.unusedStreams[msgID]...)
+	delete(sm.unusedStreams, msgID)
+	streams = append(streams, sm.unusedStreams["UNKNOWN"]...)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 4dc9af5b9af48de74348d3eb12355f4e9713bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 12/23] fix: accept the signatures of a keysign only if there
 is one for each message

---
 keysign/notifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..58d6b07 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,7 +63,9 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
-
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("we expect %d signatures, but got %d", len(n.messages), len(data))
+		}
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
 			msg := n.messages[i]
-- 
2.43.0


From e627b1e76544582b6a094d48e39b8e0d3c470962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 13/23] fix: do not crash when a keysign times out before the
 first message is produced

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..2b79088 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -200,6 +200,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From b8a75d0f7613270f0337aafd052498285237048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 14/23] fix: search the missing shares of each message on its
 own

---
 blame/policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..891c914 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,7 +135,6 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
@@ -151,6 +150,7 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	m.acceptShareLocker.Unlock()
 
 	for _, cachedShares := range acceptedShareForMsg {
+		var peers []string
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
@@ -181,6 +181,10 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			break
 		}
+		if len(peers) == 0 {
+			// we have all the shares of this message
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
-- 
2.43.0


From 1474a5422df6a29349b63744f2b7b7499655436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 15/23] fix: respect the party size given to the recovery tool

---
 cmd/tss-recovery/tss-recovery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index 7f3adab..2796d84 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -12,11 +12,12 @@ import (
 )
 
 func main() {
-	n := *(flag.Int("n", 3, "signing party size"))
-	threshold := n - 1
+	partySize := flag.Int("n", 3, "signing party size")
 	export := flag.String("export", "", "path to export keyfile")
 	password := flag.String("password", "", "encryption password for keyfile")
 	flag.Parse()
+	n := *partySize
+	threshold := n - 1
 	files := flag.Args()
 
 	setupBech32Prefix()
-- 
2.43.0


From a48d544e377319bc819943ed5eb7b9c6692f320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 16/23] fix: keep the previous key share or address book when a
 save fails or is interrupted

---
 storage/localstate_mgr.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..bd616c5 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -74,6 +74,31 @@ func (fsm *FileStateMgr) getFilePathName(pubKey string) (string, error) {
 	return localFileName, nil
 }
 
+// writeFileAtomic replaces the content of the given file, when it fails or is interrupted, the previous content is kept
+func writeFileAtomic(filePathName string, data []byte, perm os.FileMode) error {
+	tmp, err := ioutil.TempFile(filepath.Dir(filePathName), filepath.Base(filePathName)+".tmp")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(perm)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if errClose := tmp.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePathName)
+	}
+	if err != nil {
+		_ = os.Remove(tmp.Name())
+	}
+	return err
+}
+
 // SaveLocalState save the local state to file
 func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	buf, err := json.Marshal(state)
@@ -84,7 +109,7 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	return writeFileAtomic(filePathName, buf, 0o655)
 }
 
 // GetLocalState read the local state from file system
@@ -133,7 +158,7 @@ func (fsm *FileStateMgr) SaveAddressBook(address map[peer.ID]addr.AddrList) erro
 	}
 	fsm.writeLock.Lock()
 	defer fsm.writeLock.Unlock()
-	return ioutil.WriteFile(filePathName, buf.Bytes(), 0o655)
+	return writeFileAtomic(filePathName, buf.Bytes(), 0o655)
 }
 
 func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
-- 
2.43.0


From 67138f6cdc941c70171e01a846476de84b304306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 17/23] fix: confirm the copy of a share that is held when its
 sender sends another one

---
 common/tss.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index c024c7c..0f2a9f9 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -820,7 +820,8 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 			localCacheItem.Hash = msgHash
 		}
 	}
-	localCacheItem.UpdateConfirmList(t.localPeerID, msgHash)
+	// what we confirm is the copy that we hold, a second one does not change that
+	localCacheItem.UpdateConfirmList(t.localPeerID, localCacheItem.Hash)
 
 	threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))
 	if err != nil {
-- 
2.43.0


From d261b0090ba1a55af15c0e97d89b743e1a59b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 18/23] fix: refuse shares that are declared as shares of
 another round

---
 common/tss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 0f2a9f9..fc181ee 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -281,6 +281,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Error().Err(err).Msg("broken tss share")
 			return err
 		}
+		// the declared round is not signed, and the peers confirm the share for the declared round only
+		if round.RoundMsg != wireMsg.RoundInfo {
+			t.logger.Error().Msgf("the share of round %s is declared as a share of round %s", round.RoundMsg, wireMsg.RoundInfo)
+			return errors.New("invalid round of the share")
+		}
 
 		// we only allow a message be updated only once.
 		// here we use round + msgIdentifier as the key for the acceptedShares
-- 
2.43.0


From 54a9d6d9995f632945b5d0e98faff5de93cf7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 19/23] fix: do not crash on messages of an empty sender

---
 common/tss.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index fc181ee..ab5dcce 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -221,9 +221,15 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 	return fmt.Errorf("fail to set bytes to local party: %w", err)
 }
 
+// hasSender tells whether the sender is given, the fields of a party ID that was decoded from an empty one cannot be
+// accessed
+func hasSender(routing *btss.MessageRouting) bool {
+	return routing != nil && routing.From != nil && routing.From.MessageWrapper_PartyID != nil
+}
+
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -258,7 +264,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	seen := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		// only the owner of the batch is authenticated, and the batch has been checked for one kind of delivery only
-		if msg.Routing == nil || msg.Routing.From == nil ||
+		if !hasSender(msg.Routing) ||
 			msg.Routing.From.Id != wireMsg.Routing.From.Id ||
 			msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
 			t.logger.Error().Msg("the routing of the share does not match the routing of its batch")
@@ -768,7 +774,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
-- 
2.43.0


From d4178c79d5783b259b497a7812dc4e261080571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 20/23] fix: refuse empty party IDs instead of crashing

---
 conversion/conversion.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conversion/conversion.go b/conversion/conversion.go
index 0558d71..04eaeef 100644
--- a/conversion/conversion.go
+++ b/conversion/conversion.go
@@ -36,7 +36,7 @@ func GetPeerIDFromSecp256PubKey(pk []byte) (peer.ID, error) {
 }
 
 func GetPeerIDFromPartyID(partyID *btss.PartyID) (peer.ID, error) {
-	if partyID == nil || !partyID.ValidateBasic() {
+	if partyID == nil || partyID.MessageWrapper_PartyID == nil || !partyID.ValidateBasic() {
 		return "", errors.New("invalid partyID")
 	}
 	pkBytes := partyID.KeyInt().Bytes()
@@ -44,7 +44,7 @@ func GetPeerIDFromPartyID(partyID *btss.PartyID) (peer.ID, error) {
 }
 
 func PartyIDtoPubKey(party *btss.PartyID) (string, error) {
-	if party == nil || !party.ValidateBasic() {
+	if party == nil || party.MessageWrapper_PartyID == nil || !party.ValidateBasic() {
 		return "", errors.New("invalid party")
 	}
 	partyKeyBytes := party.GetKey()
-- 
2.43.0


From a93a4dd0976b7c5efae354e0e1ec228ef15cd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 21/23] fix: refuse private keys that are too short instead of
 crashing

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index 3f1ea7b..2f095ae 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -96,6 +96,9 @@ func GetPriKey(priKeyString string) (tcrypto.PrivKey, error) {
 	if err != nil {
 		return nil, fmt.Errorf("fail to hex decode private key: %w", err)
 	}
+	if len(rawBytes) < 32 {
+		return nil, errors.New("private key is too short")
+	}
 	var priKey secp256k1.PrivKey
 	priKey = rawBytes[:32]
 	return priKey, nil
-- 
2.43.0


From 7fa7a2ab2d20c04d08a4d42ad5ffe42189fad510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 22/23] fix: refuse peer IDs of other key types

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index 2f095ae..43eb758 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -77,6 +77,9 @@ func GetPubKeyFromPeerID(pID string) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("fail to extract pub key from peer id: %w", err)
 	}
+	if pk.Type() != crypto.Secp256k1 {
+		return "", errors.New("the key of the peer is not a secp256k1 key")
+	}
 	rawBytes, err := pk.Raw()
 	if err != nil {
 		return "", fmt.Errorf("faail to get pub key raw bytes: %w", err)
-- 
2.43.0


From eb845a0d959e00b68ad19be43a433cd2cc0a8d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 23/23] fix: refuse signatures whose recovery ID does not fit
 or that are not in the lower S form

---
 keysign/notifier.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index 58d6b07..352aef9 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -52,7 +52,24 @@ func (n *Notifier) verifySignature(data *common.ECSignature, msg []byte) (bool,
 	if err != nil {
 		return false, err
 	}
-	return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil
+	r, s := new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)
+	if !ecdsa.Verify(pub.ToECDSA(), msg, r, s) {
+		return false, nil
+	}
+	// the recovery ID is part of the result as well. Of the two S that verify, only the lower one is ever generated.
+	if s.Cmp(new(big.Int).Rsh(btcec.S256().N, 1)) > 0 || len(data.SignatureRecovery) != 1 || data.SignatureRecovery[0] > 3 {
+		return false, nil
+	}
+	compact := make([]byte, 65)
+	compact[0] = 27 + data.SignatureRecovery[0]
+	rBytes, sBytes := r.Bytes(), s.Bytes()
+	copy(compact[33-len(rBytes):33], rBytes)
+	copy(compact[65-len(sBytes):], sBytes)
+	recovered, _, err := btcec.RecoverCompact(btcec.S256(), compact, msg)
+	if err != nil {
+		return false, err
+	}
+	return recovered.IsEqual(pub), nil
 }
 
 // ProcessSignature is to verify whether the signature is valid
-- 
2.43.0

