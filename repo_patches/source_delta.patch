From 518fc069ba14dc21f16c357a2b0de2d371e41831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 01/14] fix: riblt: keep symbol indices increasing and in range
 for every hash

---
 riblt/random.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..0474110 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -12,6 +12,9 @@ type randomMapping struct {
 const (
 	minstd_m uint64 = 2147483647
 	minstd_a uint64 = 16807
+
+	// largest index that a symbol can be mapped to
+	maxIdx uint64 = 1 << 62
 )
 
 // degree sequence is 1/(1+idx/2)
@@ -36,6 +39,17 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	x := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))
+	// The random number may be so close to 0 that x rounds to 0, or so close
+	// to 1 that x does not fit into an index. Always move forward, and never
+	// beyond maxIdx.
+	if x < 1 {
+		x = 1
+	}
+	if x < float64(maxIdx - s.lastIdx) {
+		s.lastIdx += uint64(x)
+	} else {
+		s.lastIdx = maxIdx
+	}
 	return s.lastIdx
 }
-- 
2.43.0


From a3690c039c1b1d95d290fc7d9fd2a7771d39be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 02/14] fix: riblt: do not XOR the sums of empty cells when
 subtracting sketches

---
 riblt/sketch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index a806420..8c3fa0c 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -24,6 +24,11 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 	}
 
 	for i := range s {
+		if s2[i].count == 0 && s2[i].checksum == 0 {
+			// no symbol in this cell; its sum may be the default value
+			// of T, which is not a valid argument to XOR
+			continue
+		}
 		s[i].sum = s[i].sum.XOR(s2[i].sum)
 		s[i].count = s[i].count - s2[i].count
 		s[i].checksum = s[i].checksum ^ s2[i].checksum
-- 
2.43.0


From 9368603649068a938c73d79b9a548e5fa04b674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 03/14] fix: des: RunUntil must not deliver messages due after
 the horizon

---
 des/simulator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/des/simulator.go b/des/simulator.go
index c48cbac..c450ade 100644
--- a/des/simulator.go
+++ b/des/simulator.go
@@ -38,7 +38,7 @@ func (s *Simulator) Time() time.Duration {
 }
 
 func (s *Simulator) RunUntil(t time.Duration) {
-	for !s.Drained() && s.time <= t {
+	for !s.Drained() && s.mq[0].arrival <= t {
 		s.deliverNextMessage()
 	}
 }
-- 
2.43.0


From 5a651d70d593a349b57ff65660204ee493d72bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 04/14] fix: simulator: never shrink the send window of a link
 to zero

---
 simulator/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 68ba560..15f1538 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -65,6 +65,10 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 			// move to the next block
 			blockSize := len(n.buffer)
 			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
+			if n.sendWindow < 1 {
+				// otherwise the link never sends anything again
+				n.sendWindow = 1
+			}
 			cw.newBlock = true
 			n.encodingCurrentBlock = true
 			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
-- 
2.43.0


From bccfc295c60e5b04a0d04031089ad058bdae801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 05/14] fix: node: read the whole decoder key during the
 handshake

---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 34262fc9410b4624d176bf8760591345357d36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 06/14] fix: node: do not deadlock when a decoding cascade
 fills both queues

---
 node/receiver.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..c4b12d1 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -38,6 +38,20 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 	}
 }
 
+// deliver hands decoded transactions to the controller. It keeps accepting new
+// transactions meanwhile; otherwise, the controller may be blocked on sending us
+// a new transaction while we are blocked on sending it a decoded one.
+func (r *receiver) deliver(buf []ldpc.DecodedTransaction) {
+	for len(buf) > 0 {
+		select {
+		case r.decodedTransaction <- buf[0]:
+			buf = buf[1:]
+		case tx := <-r.newTransaction:
+			buf = append(buf, r.decoder.AddTransaction(tx)...)
+		}
+	}
+}
+
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
@@ -71,14 +85,10 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case tx := <-r.newTransaction:
 			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.deliver(buf)
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From 5cf5e4c6a384cfdb34b032becb6f358fbb06dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 07/14] fix: ldpc: make every window position eligible for
 sampling

The reservoir sampling skipped from one past the last item that was put
into the reservoir, so the window item at the position equal to the degree
could never be part of a codeword of that degree.
---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..524f872 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
 		if midx < len(e.window) {
-- 
2.43.0


From ffe79fa0d6719976f0a85fa096433f3b0db2e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 08/14] fix: newsim, simulator: divide counts by the time
 during which they were counted

Counters are reset at the first report after the warm-up, but rates were
computed over the time since the end of the warm-up.
---
 newsim/main.go    | 6 ++++--
 simulator/main.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/newsim/main.go b/newsim/main.go
index 774d87b..91f9a3f 100644
--- a/newsim/main.go
+++ b/newsim/main.go
@@ -64,6 +64,7 @@ func main() {
 	fmt.Println("#", N, "nodes, node 0 num peers", len(servers[0].handlers))
 
 	warmed := false
+	measuredFrom := time.Duration(0)
 	numEvents := 0
 	lastSimTime := time.Duration(0)
 	lastRealTime := time.Now()
@@ -73,6 +74,7 @@ func main() {
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measuredFrom = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -87,10 +89,10 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# received transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.receivedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.receivedTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# duplicate transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.duplicateTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.duplicateTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedBytes) / float64(s.decodedTransactions) / float64(TXSIZE)
diff --git a/simulator/main.go b/simulator/main.go
index 23942e5..5846d81 100644
--- a/simulator/main.go
+++ b/simulator/main.go
@@ -62,11 +62,13 @@ func main() {
 
 	receivedCodewordRate := difference[int]{}
 	warmed := false
+	measuredFrom := time.Duration(0)
 	for cur := time.Duration(0); cur < *simDuration; cur += *reportInterval {
 		s.RunUntil(cur)
 		if cur > *warmupDuration {
 			if warmed == false {
 				warmed = true
+				measuredFrom = s.Time()
 				for _, s := range servers {
 					s.resetMetric()
 				}
@@ -80,7 +82,7 @@ func main() {
 
 	fmt.Println("# moments: mean, stddev, p5, p25, p50, p75, p95")
 	fmt.Println("# decoded transaction rate", collectMoments(servers, func(srv *server) float64 {
-		return float64(srv.decodedTransactions) / (s.Time() - *warmupDuration).Seconds()
+		return float64(srv.decodedTransactions) / (s.Time() - measuredFrom).Seconds()
 	}))
 	fmt.Println("# overhead", collectMoments(servers, func(s *server) float64 {
 		return float64(s.receivedCodewords) / float64(s.decodedTransactions)
-- 
2.43.0


From d3a6f269617b8421aaeb8ceb99ce8ad5af821b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 09/14] fix: testbed: release the lock of the image list when
 it cannot be fetched

The workers of all other regions waited for it forever.
---
 testbed/aws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..5c6fb99 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,6 +25,7 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
@@ -37,7 +38,6 @@ func AWSGetImageID(region string) (string, error) {
 		AWSImageList = string(body)
 		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0


From 44994d72741211be32fa5f757f7dd78ba43b11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 10/14] fix: testbed: do not crash on instances without a
 public address

One such instance kept every command from listing or stopping any server.
---
 testbed/aws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 5c6fb99..cc1caf7 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -519,8 +519,8 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 					ID: *instance.InstanceId,
 					Region: region,
 					Tag: tag,
-					PrivateIP: *instance.PrivateIpAddress,
-					PublicIP: *instance.PublicIpAddress,
+					PrivateIP: aws.StringValue(instance.PrivateIpAddress),
+					PublicIP: aws.StringValue(instance.PublicIpAddress),	// a running instance may have none
 				}
 				output = append(output, out)
 			}
-- 
2.43.0


From 97cf3f8a54be8ce83611026a8ef8d8913a706b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 11/14] fix: testbed: stop terminates servers that are not
 running, too

Servers still pending when stop was run, and stopped ones, were left behind.
---
 testbed/aws.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index cc1caf7..d3a52e5 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -407,7 +407,8 @@ echo 'MaxSessions 1024' >> /etc/ssh/sshd_config
 }
 
 func AWSStopServersAtRegion(region string, tag string) error {
-	servers, err := AWSListServersAtRegion(region, tag)	// TODO: don't use listservers since it does not show non-running servers
+	// everything that is not terminated or about to be: pending, running, stopping, stopped
+	servers, err := AWSListServersInStates(region, tag, 0, 16, 64, 80)
 	if err != nil {
 		return err
 	}
@@ -498,6 +499,12 @@ func AWSListServersAtAllRegions(tag string) ([]AWSServer, error) {
 }
 
 func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
+	// skip non-running instances
+	return AWSListServersInStates(region, tag, 16)
+}
+
+// AWSListServersInStates lists the servers that are in one of the given states.
+func AWSListServersInStates(region string, tag string, states ...int64) ([]AWSServer, error) {
 	sess, err := session.NewSession(&aws.Config{
 		Region: aws.String(region),
 		Credentials: credentials.NewSharedCredentials("", "pika"),
@@ -511,8 +518,13 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 		d := page.Reservations
 		for _, v := range d {
 			for _, instance := range v.Instances {
-				// skip non-running instances
-				if (*instance.State.Code) & 255 != 16 {
+				wanted := false
+				for _, state := range states {
+					if (*instance.State.Code) & 255 == state {
+						wanted = true
+					}
+				}
+				if !wanted {
 					continue
 				}
 				out := AWSServer {
-- 
2.43.0


From a64c7c3680faf1686f9294c749e39edd47f007b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 12/14] fix: testbed: reboot workers do not share their error
 variable

A failed reboot could be reported as a success.
---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From 929b4fad79479991561efc3271e008be44d2781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 13/14] fix: node: a silent incoming peer must not block those
 that come after it

The accept loop performed the key exchange itself, which waits for the key of
the peer, so that a connection whose peer sends nothing kept the program from
accepting any other.
---
 node/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/main.go b/node/main.go
index 76a5d12..65ffc04 100644
--- a/node/main.go
+++ b/node/main.go
@@ -114,7 +114,7 @@ func main() {
 			if err != nil {
 				log.Println("error accepting incoming connection:", err)
 			} else {
-				c.handleConn(cn.RemoteAddr().String(), cn)
+				go c.handleConn(cn.RemoteAddr().String(), cn)
 			}
 		}
 	}()
-- 
2.43.0


From faf56c6e13f4178d9d3e5bf5b34afbac01b7cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 14/14] fix: lt, iblt, ldpc: a transaction relearned after one
 of the same salted hash is not dropped with its first entry

---
 iblt/decoder.go | 18 ++++++++++++++----
 ldpc/decoder.go |  8 +++++++-
 lt/decoder.go   | 18 ++++++++++++++----
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/iblt/decoder.go b/iblt/decoder.go
index 60f2998..4f04eb1 100644
--- a/iblt/decoder.go
+++ b/iblt/decoder.go
@@ -118,16 +118,25 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 	p.recentTransactions = append(p.recentTransactions, saltedTransaction[T]{saltedHash, t})
 	// free receiver memory if needed
 	for len(p.recentTransactions) > p.memory {
-		// FIXME: the comparison of the hashes is a hack. It is a shallow comparison, but currently it is fine because
-		// Transaction values in receivedTransactions and recentTransactions have the same origin. The shallow comparison
-		// has the same effect as a pointer comparison.
-		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
+		// a transaction that was replaced by one with the same salted hash is marked by a nil hash
+		if p.recentTransactions[0].hash != nil {
 			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
 		}
 		p.recentTransactions = p.recentTransactions[1:]
 	}
 }
 
+// forgetReplaced marks the transaction remembered for saltedHash as replaced, so that
+// the one that replaces it is not dropped when it becomes too old. Comparing the data
+// then does not suffice: the same transaction may come back later.
+func (p *Decoder[T]) forgetReplaced(saltedHash uint32) {
+	for i := range p.recentTransactions {
+		if p.recentTransactions[i].saltedHash == saltedHash {
+			p.recentTransactions[i].Transaction = Transaction[T]{}
+		}
+	}
+}
+
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
 	cw.symbol = rawCodeword.symbol
@@ -187,6 +196,7 @@ func (p *Decoder[T]) AddTransaction(t Transaction[T]) []Transaction[T] {
 			return nil
 		} else {
 			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
+			p.forgetReplaced(saltedHash)
 			p.storeNewTransaction(saltedHash, t)
 			if _, there := p.pendingTransactions[saltedHash]; there {
 				panic("pending transaction is already decoded")
diff --git a/ldpc/decoder.go b/ldpc/decoder.go
index 4c2371f..495fb90 100644
--- a/ldpc/decoder.go
+++ b/ldpc/decoder.go
@@ -219,7 +219,13 @@ func (p *Decoder) AddTransaction(t *Transaction) []DecodedTransaction {
 			// something that we already know; do not do anything
 			return nil
 		} else {
-			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
+			// adding a transaction that is a hash conflict with an existing one that we have not forgotten;
+			// unlink the replaced one, or a transaction that comes back would be dropped with its first entry
+			for i := range p.recentTransactions {
+				if p.recentTransactions[i].hash == hash {
+					p.recentTransactions[i].ptr = nil
+				}
+			}
 			p.storeNewTransaction(hash, t)
 			if _, there := p.pendingTransactions[hash]; there {
 				panic("pending transaction is already decoded")
diff --git a/lt/decoder.go b/lt/decoder.go
index 0bfdff2..c144b00 100644
--- a/lt/decoder.go
+++ b/lt/decoder.go
@@ -130,16 +130,25 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 	p.recentTransactions = append(p.recentTransactions, saltedTransaction[T]{saltedHash, t})
 	// free receiver memory if needed
 	for len(p.recentTransactions) > p.memory {
-		// FIXME: the comparison of the hashes is a hack. It is a shallow comparison, but currently it is fine because
-		// Transaction values in receivedTransactions and recentTransactions have the same origin. The shallow comparison
-		// has the same effect as a pointer comparison.
-		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
+		// a transaction that was replaced by one with the same salted hash is marked by a nil hash
+		if p.recentTransactions[0].hash != nil {
 			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
 		}
 		p.recentTransactions = p.recentTransactions[1:]
 	}
 }
 
+// forgetReplaced marks the transaction remembered for saltedHash as replaced, so that
+// the one that replaces it is not dropped when it becomes too old. Comparing the data
+// then does not suffice: the same transaction may come back later.
+func (p *Decoder[T]) forgetReplaced(saltedHash uint32) {
+	for i := range p.recentTransactions {
+		if p.recentTransactions[i].saltedHash == saltedHash {
+			p.recentTransactions[i].Transaction = Transaction[T]{}
+		}
+	}
+}
+
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
 	cw.symbol = rawCodeword.symbol
@@ -199,6 +208,7 @@ func (p *Decoder[T]) AddTransaction(t Transaction[T]) []Transaction[T] {
 			return nil
 		} else {
 			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
+			p.forgetReplaced(saltedHash)
 			p.storeNewTransaction(saltedHash, t)
 			if _, there := p.pendingTransactions[saltedHash]; there {
 				panic("pending transaction is already decoded")
-- 
2.43.0

