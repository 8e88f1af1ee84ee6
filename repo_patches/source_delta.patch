From c52aa9df146566fe7d92cf9b4043de7b2243a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 01/54] fix: dialog: don't deadlock while shutting down the
 message receivers

---
 dialog/dialog.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..9fa02f6 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -502,6 +502,11 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
+		select {
+		case <-dls.sockMsgs: // Receiver was busy delivering a message.
+			<-dls.sockErrs
+		case <-dls.sockErrs:
+		}
 		<-dls.sockMsgs
 		<-dls.sockErrs
 	}
@@ -511,6 +516,11 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
+		select {
+		case <-dls.csockMsgs: // Receiver was busy delivering a message.
+			<-dls.csockErrs
+		case <-dls.csockErrs:
+		}
 		<-dls.csockMsgs
 		<-dls.csockErrs
 	}
-- 
2.43.0


From 1815c786da104c07033c88a2b7f8483fbd4b0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 02/54] fix: dialog: try the remaining addresses after a 503
 response

---
 dialog/dialog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 9fa02f6..e195d4a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,6 +311,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
+	routes := dls.routes
 	dls.routes = nil
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
@@ -335,6 +336,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	case sip.StatusServiceUnavailable:
 		if dls.request == dls.invite {
 			log.Printf("Service unavailable: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+			dls.routes = routes
 			return dls.popRoute()
 		} else {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
-- 
2.43.0


From 789926c4ac86badea30bd7797d930a02cd539b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 03/54] fix: util: recognize ICMP refusals that are wrapped in
 a syscall error

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index 7ffce9a..5bbdd58 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,6 +17,7 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
 	"net"
@@ -28,6 +29,9 @@ import (
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
 	operr, ok := err.(*net.OpError)
+	if ok && errors.Is(operr, syscall.ECONNREFUSED) {
+		return true // Err is usually wrapped in an os.SyscallError.
+	}
 	return ok && operr.Err == syscall.ECONNREFUSED
 }
 
-- 
2.43.0


From 2aa19a55b49404899e44fe7d0e328bc2fa26a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 04/54] fix: dialog: don't crash when the remote SDP has no
 audio

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e195d4a..3b14e0b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -396,6 +396,9 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
 	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+		if ms.Audio == nil {
+			return
+		}
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From f58080319ca7cfe5959dcf5a67c2e44382cbc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 05/54] fix: dialog: drop received messages that have no Via
 instead of crashing

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..6c7212f 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message without Via\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From c0a8d4ab16233b710eadce8ae025eb533ac17c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 06/54] fix: dialog: only follow redirects of the INVITE that
 name a target

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 3b14e0b..642ef91 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -343,6 +343,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if dls.request != dls.invite || msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From d738ffe67f45918582dad8869cd46033cfc5f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 07/54] fix: dialog: acknowledge INVITE failures that carry no
 Contact

---
 dialog/dialog.go   | 2 +-
 dialog/messages.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 642ef91..e8d95e7 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,7 +303,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
 			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
 			return false
 		}
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..d9c62a8 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,6 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	if msg.Status >= sip.StatusMultipleChoices {
+		// Non-2xx responses are acknowledged within the INVITE transaction.
+		contact := &sip.Addr{Uri: invite.Request}
+		msg = msg.Copy()
+		msg.Contact = contact
+		msg.RecordRoute = invite.Route.Reversed()
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
 		Request:            msg.Contact.Uri,
-- 
2.43.0


From 327cf6e83e8fb94c5cbefae17ae18f7f4a27b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 08/54] fix: dialog: a late provisional response doesn't
 un-answer the call

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e8d95e7..8c56217 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -314,6 +314,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	routes := dls.routes
 	dls.routes = nil
 	dls.requestTimer = nil
+	if msg.Status < sip.StatusOK && dls.state >= Answered {
+		log.Printf("Ignoring provisional response that arrived late\r\n")
+		return true
+	}
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-- 
2.43.0


From a2bb0c09b727efdcd072c81f38d19c769b9b63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 09/54] fix: dialog: a re-INVITE only refreshes the remote
 target

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 8c56217..0b619f0 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -390,7 +390,11 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			remote := *dls.remote // Target refresh keeps the rest of the dialog.
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-- 
2.43.0


From adf6bb6780b9bacb69f8864d53b0c5e940b4483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 10/54] fix: dialog: never respond to responses and ACKs

---
 dialog/dialog.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0b619f0..01037c1 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -279,6 +279,17 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 }
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
+	if msg.IsResponse() || msg.Method == sip.MethodAck {
+		// These never get a response, no matter what's wrong with them.
+		if msg.CallID != dls.request.CallID {
+			log.Printf("Received message doesn't match dialog\r\n")
+			return true
+		}
+		if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
+			dls.errChan <- errors.New("Remote UA is using a strange SIP version")
+			return false
+		}
+	}
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
 		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
 			return false
@@ -364,7 +375,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
-	if msg.MaxForwards <= 0 {
+	if msg.MaxForwards <= 0 && msg.Method != sip.MethodAck {
 		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
 		}
@@ -374,6 +385,9 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	if dls.rseq == 0 {
 		dls.rseq = msg.CSeq
 	} else {
+		if msg.CSeq < dls.rseq && msg.Method == sip.MethodAck {
+			return true
+		}
 		if msg.CSeq < dls.rseq {
 			// RFC 3261 mandates a 500 response for out of order requests.
 			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
-- 
2.43.0


From 4f111ca47e142609986d78b7642dcfc4c0befad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 11/54] fix: dialog: don't crash when routing a response that
 ran out of Vias

---
 dialog/route.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..4ab379b 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -82,6 +82,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 			msg.Via = msg.Via.Next
 		}
 
+		if msg.Via == nil {
+			return "", 0, errors.New("Response has no Via to route to")
+		}
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
 			host = received.Value
-- 
2.43.0


From 5d7f6bbd219b517156597dbda53ba5c4a4ad3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 12/54] fix: dialog: don't let messages modify the transport's
 Via and Contact

---
 dialog/route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 4ab379b..245015b 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,10 +32,10 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
-			msg.Contact = contact
+			msg.Contact = contact.Copy()
 		}
 		if msg.To == nil {
 			msg.To = &sip.Addr{Uri: msg.Request}
-- 
2.43.0


From bd04acde76d73300d29b6dda99b9d2fb2aeede99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 13/54] fix: rtp: leave no marker or reused timestamp behind
 after a DTMF event

---
 rtp/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..7ad33d0 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -130,6 +130,10 @@ func (rs *Session) SendDTMF(digit byte) error {
 	}
 	rs.Header.PT = sdp.DTMFCodec.PT
 	rs.Header.Mark = true
+	defer func() {
+		rs.Header.Mark = false       // Even when sending the first packet fails.
+		rs.Header.TS += dtmfDuration // Receivers tell events apart by timestamp.
+	}()
 	var event [4]byte
 	event[0] = code
 	event[1] = dtmfVolume & 0x3f
-- 
2.43.0


From 04457eebb4363786d9929398b6eafe22b679235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 14/54] fix: sip: make deep copies deep and keep the display
 name

---
 sip/addr.go      | 3 ++-
 sip/msg.go       | 2 +-
 sip/param.go     | 8 ++++++++
 sip/uri.go       | 4 ++--
 sip/uriheader.go | 8 ++++++++
 sip/uriparam.go  | 8 ++++++++
 sip/via.go       | 2 +-
 sip/xheader.go   | 8 ++++++++
 8 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..167bc18 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,7 +93,8 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
-	res.Param = addr.Param
+	res.Param = addr.Param.Copy()
+	res.Display = addr.Display
 	res.Next = addr.Next.Copy()
 	return res
 }
diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..f5032c5 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -122,7 +122,7 @@ func (msg *Msg) Copy() *Msg {
 	res.Route = msg.Route.Copy()
 	res.Contact = msg.Contact.Copy()
 	res.RecordRoute = msg.RecordRoute.Copy()
-	res.XHeader = msg.XHeader
+	res.XHeader = msg.XHeader.Copy()
 	return res
 }
 
diff --git a/sip/param.go b/sip/param.go
index 6cf5465..36acfad 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -39,6 +39,14 @@ func (p *Param) Get(name string) *Param {
 	return nil
 }
 
+// Copy returns a deep copy of the list.
+func (p *Param) Copy() *Param {
+	if p == nil {
+		return nil
+	}
+	return &Param{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes parameters in insertion order.
 func (p *Param) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uri.go b/sip/uri.go
index 126a869..03b1f7e 100755
--- a/sip/uri.go
+++ b/sip/uri.go
@@ -63,8 +63,8 @@ func (uri *URI) Copy() *URI {
 	}
 	res := new(URI)
 	*res = *uri
-	res.Param = uri.Param
-	res.Header = uri.Header
+	res.Param = uri.Param.Copy()
+	res.Header = uri.Header.Copy()
 	return res
 }
 
diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..5abfb48 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -39,6 +39,14 @@ func (p *URIHeader) Get(name string) *URIHeader {
 	return p.Next.Get(name)
 }
 
+// Copy returns a deep copy of the list.
+func (p *URIHeader) Copy() *URIHeader {
+	if p == nil {
+		return nil
+	}
+	return &URIHeader{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI headers in insertion order.
 func (p *URIHeader) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uriparam.go b/sip/uriparam.go
index 7b1c705..436ab96 100644
--- a/sip/uriparam.go
+++ b/sip/uriparam.go
@@ -39,6 +39,14 @@ func (p *URIParam) Get(name string) *URIParam {
 	return p.Next.Get(name)
 }
 
+// Copy returns a deep copy of the list.
+func (p *URIParam) Copy() *URIParam {
+	if p == nil {
+		return nil
+	}
+	return &URIParam{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI parameters in insertion order.
 func (p *URIParam) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/via.go b/sip/via.go
index 231ef9b..da66830 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -72,7 +72,7 @@ func (via *Via) Copy() *Via {
 	res.Transport = via.Transport
 	res.Host = via.Host
 	res.Port = via.Port
-	res.Param = via.Param
+	res.Param = via.Param.Copy()
 	res.Next = via.Next.Copy()
 	return res
 }
diff --git a/sip/xheader.go b/sip/xheader.go
index 23ea54d..48587f8 100644
--- a/sip/xheader.go
+++ b/sip/xheader.go
@@ -46,6 +46,14 @@ func (h *XHeader) String() string {
 	return b.String()
 }
 
+// Copy returns a deep copy of the list.
+func (h *XHeader) Copy() *XHeader {
+	if h == nil {
+		return nil
+	}
+	return &XHeader{h.Name, append([]byte{}, h.Value...), h.Next.Copy()}
+}
+
 // Append serializes headers in insertion order.
 func (h *XHeader) Append(b *bytes.Buffer) {
 	if h == nil {
-- 
2.43.0


From 3a615346094a393301f5f5fa8374af74cd93cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 15/54] fix: sip: spell the Retry-After header correctly

---
 sip/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index f5032c5..ffcbdcf 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -399,7 +399,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 8c2553a1ca1853a04c744a187704cf494e30dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 16/54] fix: sip: write the Accept-Contact header

---
 sip/msg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/msg.go b/sip/msg.go
index ffcbdcf..c04fc4b 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
-- 
2.43.0


From 3cce0e77cf949f5177ed45034148649eefcfe651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 17/54] fix: sip: escape the reason phrase and leave the
 message alone when writing it

---
 sip/charsets.go | 5 +++++
 sip/msg.go      | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..52ac152 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -55,6 +55,11 @@ func qdtextesc(c byte) bool {
 		0x0E <= c && c <= 0x7F
 }
 
+// reasonc is true for bytes that needn't be escaped in a reason phrase.
+func reasonc(c byte) bool {
+	return c == ' ' || c == '\t' || c == ':' || c == '@' || c >= 0x80 || userc(c)
+}
+
 func whitespacec(c byte) bool {
 	return c == ' ' || c == '\t' || c == '\r' || c == '\n'
 }
diff --git a/sip/msg.go b/sip/msg.go
index c04fc4b..96fb57d 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -148,14 +148,15 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		msg.appendVersion(b)
 		b.WriteString("\r\n")
 	} else {
-		if msg.Phrase == "" {
-			msg.Phrase = Phrase(msg.Status)
+		phrase := msg.Phrase
+		if phrase == "" {
+			phrase = Phrase(msg.Status)
 		}
 		msg.appendVersion(b)
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendEscaped(b, []byte(phrase), reasonc)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From 1b03ae9701f26f411b22fcf3a3ccbcf304d0ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 18/54] fix: sip: write Via hosts and ports in a form that
 parses

---
 sip/via.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index da66830..f8ac366 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,14 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteByte('[')
+		b.WriteString(via.Host)
+		b.WriteByte(']')
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 5060 && via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From 7bb005cf96134955ef2b6f595da342aa3527e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 19/54] fix: sip: a Via without a port is the same as one with
 port 5060

---
 sip/via.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index f8ac366..fd87fbf 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -109,13 +109,21 @@ func (via *Via) Last() *Via {
 func (via *Via) CompareHostPort(other *Via) bool {
 	if via != nil && other != nil {
 		if via.Host == other.Host &&
-			via.Port == other.Port {
+			via.port() == other.port() {
 			return true
 		}
 	}
 	return false
 }
 
+// port returns the port with the default filled in, which is never written.
+func (via *Via) port() uint16 {
+	if via.Port == 0 {
+		return 5060
+	}
+	return via.Port
+}
+
 func (via *Via) CompareBranch(other *Via) bool {
 	if via != nil && other != nil {
 		if b1 := via.Param.Get("branch"); b1 != nil {
-- 
2.43.0


From b3800b4fe555bd9daf5c9b05340b860b64b0605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 20/54] fix: sip: quote parameter values that contain spaces

---
 sip/param.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/param.go b/sip/param.go
index 36acfad..2b89c26 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -57,6 +57,10 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
+		if strings.Contains(p.Value, " ") {
+			appendQuoteQuoted(b, []byte(p.Value))
+			return
+		}
 		appendQuoted(b, []byte(p.Value))
 	}
 }
-- 
2.43.0


From e8a743ed063b381b60ba90b8eeb2f02db70ac0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 21/54] fix: sip: quote display names that start or end with a
 space

---
 sip/addr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/addr.go b/sip/addr.go
index 167bc18..1b66dc3 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -34,6 +34,7 @@ package sip
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/jart/gosip/util"
 )
@@ -71,7 +72,10 @@ func (addr *Addr) Append(b *bytes.Buffer) {
 	if addr == nil {
 		return
 	}
-	if addr.Display != "" {
+	if strings.HasPrefix(addr.Display, " ") || strings.HasSuffix(addr.Display, " ") {
+		appendQuoteQuoted(b, []byte(addr.Display))
+		b.WriteByte(' ')
+	} else if addr.Display != "" {
 		appendQuoted(b, []byte(addr.Display))
 		b.WriteByte(' ')
 	}
-- 
2.43.0


From 3c5c459c4980ec3f8e3051b1601820e81bb6657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 22/54] fix: sip: keep UTF-8 and reject bare line feeds in
 quoted strings

---
 sip/quote.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..7d8e6d4 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 // appendSanitized appends stripping all characters that don't match the predicate.
@@ -47,6 +48,14 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
 	for i := 0; i < len(s); i++ {
+		if _, n := utf8.DecodeRune(s[i:]); n > 1 {
+			b.Write(s[i : i+n])
+			i += n - 1
+			continue
+		}
+		if s[i] == '\n' && (i == 0 || s[i-1] != '\r') {
+			break
+		}
 		if qdtextc(s[i]) {
 			if s[i] == '\r' {
 				if i+2 >= len(s) || s[i+1] != '\n' ||
-- 
2.43.0


From dc1c0d65e86ab9836af50e98953b885702a2801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 23/54] fix: sip: escape ampersands in URI headers

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 5abfb48..f5f12bb 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -58,9 +58,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From 5167223b4aa4d18cd2d5049cd97dc8225444508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 24/54] fix: sip: reject ports, versions and counters that
 overflow

---
 sip/msg_parse.go | 44 ++++++++++++++++++++++----------------------
 sip/sip.rl       | 16 ++++++++--------
 sip/uri_parse.go |  4 ++--
 sip/uri_parse.rl |  2 +-
 sip/util.go      | 31 +++++++++++++++++++++++++++++++
 5 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..f59c969 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1838,7 +1838,7 @@ tr7:
 tr12:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	if msg.VersionMajor, err = digit8(msg.VersionMajor, data[p]); err != nil { return nil, err }
 
 	goto st10
 	st10:
@@ -1866,7 +1866,7 @@ tr12:
 tr14:
 //line sip.rl:120
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	if msg.VersionMinor, err = digit8(msg.VersionMinor, data[p]); err != nil { return nil, err }
 
 	goto st12
 	st12:
@@ -2056,7 +2056,7 @@ tr2:
 tr20:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	if msg.VersionMajor, err = digit8(msg.VersionMajor, data[p]); err != nil { return nil, err }
 
 	goto st18
 	st18:
@@ -2084,7 +2084,7 @@ tr20:
 tr22:
 //line sip.rl:120
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	if msg.VersionMinor, err = digit8(msg.VersionMinor, data[p]); err != nil { return nil, err }
 
 	goto st20
 	st20:
@@ -5227,7 +5227,7 @@ tr175:
 tr188:
 //line sip.rl:163
 
-	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
+	if via.Port, err = digit16(via.Port, data[p]); err != nil { return nil, err }
 
 	goto st119
 	st119:
@@ -12612,13 +12612,13 @@ tr624:
 clen=0
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = digit32(clen, data[p]); err != nil { return nil, err }
 
 	goto st437
 tr626:
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = digit32(clen, data[p]); err != nil { return nil, err }
 
 	goto st437
 	st437:
@@ -12806,7 +12806,7 @@ tr626:
 tr637:
 //line sip.rl:232
 
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+	if msg.CSeq, err = digit32(msg.CSeq, data[p]); err != nil { return nil, err }
 
 	goto st450
 	st450:
@@ -13388,13 +13388,13 @@ tr678:
 msg.Expires=0
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = digit32(msg.Expires, data[p]); err != nil { return nil, err }
 
 	goto st485
 tr680:
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = digit32(msg.Expires, data[p]); err != nil { return nil, err }
 
 	goto st485
 	st485:
@@ -13714,43 +13714,43 @@ tr704:
 clen=0
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = digit32(clen, data[p]); err != nil { return nil, err }
 
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = digit32(msg.Expires, data[p]); err != nil { return nil, err }
 
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = digit32(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = digit32(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st508
 tr706:
 //line sip.rl:224
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	if clen, err = digit32(clen, data[p]); err != nil { return nil, err }
 
 //line sip.rl:240
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	if msg.Expires, err = digit32(msg.Expires, data[p]); err != nil { return nil, err }
 
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = digit32(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = digit32(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st508
 	st508:
@@ -14005,13 +14005,13 @@ tr723:
 msg.MaxForwards=0
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = digit32(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 	goto st526
 tr725:
 //line sip.rl:244
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	if msg.MaxForwards, err = digit32(msg.MaxForwards, data[p]); err != nil { return nil, err }
 
 	goto st526
 	st526:
@@ -14355,13 +14355,13 @@ tr751:
 msg.MinExpires=0
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = digit32(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st552
 tr753:
 //line sip.rl:248
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	if msg.MinExpires, err = digit32(msg.MinExpires, data[p]); err != nil { return nil, err }
 
 	goto st552
 	st552:
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..93798dc 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,11 +114,11 @@ action Method {
 }
 
 action VersionMajor {
-	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
+	if msg.VersionMajor, err = digit8(msg.VersionMajor, fc); err != nil { return nil, err }
 }
 
 action VersionMinor {
-	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
+	if msg.VersionMinor, err = digit8(msg.VersionMinor, fc); err != nil { return nil, err }
 }
 
 action RequestURI {
@@ -161,7 +161,7 @@ action ViaHost {
 }
 
 action ViaPort {
-	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
+	if via.Port, err = digit16(via.Port, fc); err != nil { return nil, err }
 }
 
 action ViaParam {
@@ -222,7 +222,7 @@ action CallID {
 }
 
 action ContentLength {
-	clen = clen * 10 + (int(fc) - 0x30)
+	if clen, err = digit32(clen, fc); err != nil { return nil, err }
 }
 
 action ContentType {
@@ -230,7 +230,7 @@ action ContentType {
 }
 
 action CSeq {
-	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
+	if msg.CSeq, err = digit32(msg.CSeq, fc); err != nil { return nil, err }
 }
 
 action CSeqMethod {
@@ -238,15 +238,15 @@ action CSeqMethod {
 }
 
 action Expires {
-	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
+	if msg.Expires, err = digit32(msg.Expires, fc); err != nil { return nil, err }
 }
 
 action MaxForwards {
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
+	if msg.MaxForwards, err = digit32(msg.MaxForwards, fc); err != nil { return nil, err }
 }
 
 action MinExpires {
-	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
+	if msg.MinExpires, err = digit32(msg.MinExpires, fc); err != nil { return nil, err }
 }
 
 action goto_addr { fgoto addr; }
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..c51164a 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -694,7 +694,7 @@ tr67:
 tr21:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			if uri.Port, err = digit16(uri.Port, data[p]); err != nil { return nil, err }
 		
 	goto st46
 	st46:
@@ -1719,7 +1719,7 @@ tr90:
 tr46:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			if uri.Port, err = digit16(uri.Port, data[p]); err != nil { return nil, err }
 		
 	goto st53
 	st53:
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..fb0ad1d 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -84,7 +84,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
-			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
+			if uri.Port, err = digit16(uri.Port, fc); err != nil { return nil, err }
 		}
 
 		action b1 {
diff --git a/sip/util.go b/sip/util.go
index ffc91c9..2a14e35 100644
--- a/sip/util.go
+++ b/sip/util.go
@@ -14,6 +14,11 @@
 
 package sip
 
+import (
+	"errors"
+	"math"
+)
+
 func unhex(b byte) byte {
 	switch {
 	case '0' <= b && b <= '9':
@@ -25,3 +30,29 @@ func unhex(b byte) byte {
 	}
 	return 0
 }
+
+// digit8 appends a decimal digit to an 8-bit number.
+func digit8(n uint8, c byte) (uint8, error) {
+	r, err := digitMax(int64(n), c, math.MaxUint8)
+	return uint8(r), err
+}
+
+// digit16 appends a decimal digit to a 16-bit number.
+func digit16(n uint16, c byte) (uint16, error) {
+	r, err := digitMax(int64(n), c, math.MaxUint16)
+	return uint16(r), err
+}
+
+// digit32 appends a decimal digit to a number that's less than 2**32.
+func digit32(n int, c byte) (int, error) {
+	r, err := digitMax(int64(n), c, math.MaxUint32)
+	return int(r), err
+}
+
+func digitMax(n int64, c byte, max int64) (int64, error) {
+	n = n*10 + int64(c-'0')
+	if n > max {
+		return 0, errors.New("Number in SIP message is too large")
+	}
+	return n, nil
+}
-- 
2.43.0


From 4aea2bf5c19230901b95a0f7668ea553f8ff2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 25/54] fix: sip: without Content-Length the body is the rest
 of the datagram

---
 sip/msg_parse.go | 3 ++-
 sip/msg_parse.rl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index f59c969..dd00096 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -62,7 +62,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	buf := make([]byte, len(data))
 	amt := 0
 	mark := 0
-	clen := 0
+	clen := -1
 	ctype := ""
 	var name string
 	var hex byte
@@ -17862,6 +17862,7 @@ tr753:
 		}
 	}
 
+	if clen < 0 && ctype != "" { clen = len(data) - p }
 	if clen > 0 {
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 123e941..86f2a75 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -39,7 +39,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	buf := make([]byte, len(data))
 	amt := 0
 	mark := 0
-	clen := 0
+	clen := -1
 	ctype := ""
 	var name string
 	var hex byte
@@ -60,6 +60,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 	}
 
+	if clen < 0 && ctype != "" { clen = len(data) - p }
 	if clen > 0 {
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
-- 
2.43.0


From 0258bc63d3e81778ec426185aa1dae9c13f442f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 26/54] fix: dialog: send to the default port when the address
 doesn't have one

---
 dialog/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..ad7a8f2 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,6 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
+	port = or5060(port)
 	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
 	if err != nil {
 		return err
-- 
2.43.0


From 3bea063326edcb6e019be8e048e43f745bd2109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 27/54] fix: dialog: don't use the closed socket when reporting
 an ICMP refusal

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 01037c1..4c06791 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
-- 
2.43.0


From f495e9eec2a78cd1b515e6bb585a84f5d4ff4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 28/54] fix: dialog: try the next address when a refusal is
 reported on write

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 4c06791..b47dadb 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -445,6 +445,10 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 		trace("send", dls.b.Bytes(), dls.sock.RemoteAddr())
 	}
 	_, err := dls.sock.Write(dls.b.Bytes())
+	if util.IsRefused(err) && msg == dls.request {
+		log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
+		return dls.popRoute()
+	}
 	if err != nil {
 		dls.errChan <- err
 		return false
-- 
2.43.0


From 10458510990ebfd41d5c0a7cb18e4284c02b4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 29/54] fix: sip: accept extension header names that start like
 a known one

---
 sip/msg_parse.go | 4 ++--
 sip/sip.rl       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index dd00096..6e5b13d 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1693,7 +1693,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 tr416:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
@@ -17841,7 +17841,7 @@ tr753:
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 93798dc..03426e4 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -169,7 +169,7 @@ action ViaParam {
 }
 
 action gxh {
-	fhold;
+	fexec mark;
 	fgoto xheader;
 }
 
-- 
2.43.0


From 043af5dff2ff78a51cd23a7c0b12248dc35747ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 30/54] fix: sip: standard reason phrase of 484

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From 8cb05ee067dc913f084bb42f7747c3613d4a61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 31/54] fix: sdp: payload types are mapped by their own media
 section

---
 sdp/sdp.go | 77 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..7a1733d 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -134,10 +134,8 @@ func Parse(s string) (sdp *SDP, err error) {
 	// We abstract the structure of the media lines so we need a place to store
 	// them before assembling the audio/video data structures.
 	var audioinfo, videoinfo string
-	rtpmaps := make([]string, len(lines))
-	rtpmapcnt := 0
-	fmtps := make([]string, len(lines))
-	fmtpcnt := 0
+	var rtpmaps, fmtps []mapping
+	section, audio, video := 0, -1, -1
 	sdp.Attrs = make([][2]string, 0, len(lines))
 
 	// Extract information from SDP.
@@ -151,10 +149,11 @@ func Parse(s string) (sdp *SDP, err error) {
 			continue
 		case line[0] == 'm': // media line
 			line = line[2:]
+			section++
 			if strings.HasPrefix(line, "audio ") {
-				audioinfo = line[6:]
+				audioinfo, audio = line[6:], section
 			} else if strings.HasPrefix(line, "video ") {
-				videoinfo = line[6:]
+				videoinfo, video = line[6:], section
 			} else {
 				log.Println("Unsupported SDP media line:", line)
 			}
@@ -182,11 +181,9 @@ func Parse(s string) (sdp *SDP, err error) {
 			line = line[2:]
 			switch {
 			case strings.HasPrefix(line, "rtpmap:"):
-				rtpmaps[rtpmapcnt] = line[7:]
-				rtpmapcnt++
+				rtpmaps = append(rtpmaps, mapping{section, line[7:]})
 			case strings.HasPrefix(line, "fmtp:"):
-				fmtps[fmtpcnt] = line[5:]
-				fmtpcnt++
+				fmtps = append(fmtps, mapping{section, line[5:]})
 			case strings.HasPrefix(line, "ptime:"):
 				ptimeS := line[6:]
 				if ptime, err := strconv.Atoi(ptimeS); err == nil && ptime > 0 {
@@ -229,42 +226,46 @@ func Parse(s string) (sdp *SDP, err error) {
 			}
 		}
 	}
-	rtpmaps = rtpmaps[0:rtpmapcnt]
-	fmtps = fmtps[0:fmtpcnt]
 
 	if !okConn || !okOrigin {
 		return nil, errors.New("sdp missing mandatory information")
 	}
 
 	// Assemble audio/video information.
-	var pts []uint8
+	var audiopts, videopts []uint8
 
 	if audioinfo != "" {
 		sdp.Audio = new(Media)
-		sdp.Audio.Port, sdp.Audio.Proto, pts, err = parseMediaInfo(audioinfo)
+		sdp.Audio.Port, sdp.Audio.Proto, audiopts, err = parseMediaInfo(audioinfo)
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Audio, pts, rtpmaps, fmtps)
+	}
+
+	if videoinfo != "" {
+		sdp.Video = new(Media)
+		sdp.Video.Port, sdp.Video.Proto, videopts, err = parseMediaInfo(videoinfo)
 		if err != nil {
 			return nil, err
 		}
-	} else {
-		sdp.Video = nil
 	}
 
-	if videoinfo != "" {
-		sdp.Video = new(Media)
-		sdp.Video.Port, sdp.Video.Proto, pts, err = parseMediaInfo(videoinfo)
+	if sdp.Audio != nil {
+		err = populateCodecs(sdp.Audio, audiopts,
+			mappingsFor(rtpmaps, audio, video, videopts),
+			mappingsFor(fmtps, audio, video, videopts))
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Video, pts, rtpmaps, fmtps)
+	}
+
+	if sdp.Video != nil {
+		err = populateCodecs(sdp.Video, videopts,
+			mappingsFor(rtpmaps, video, audio, audiopts),
+			mappingsFor(fmtps, video, audio, audiopts))
 		if err != nil {
 			return nil, err
 		}
-	} else {
-		sdp.Video = nil
 	}
 
 	if sdp.Audio == nil && sdp.Video == nil {
@@ -368,6 +369,36 @@ func (sdp *SDP) Append(b *bytes.Buffer) {
 	}
 }
 
+// mapping is the text of an rtpmap or fmtp line and the number of m= lines that
+// came before it.
+type mapping struct {
+	section int
+	text    string
+}
+
+// mappingsFor returns the mappings which apply to the media section own: those
+// inside it come first and those the other section has for its own payload
+// types aren't included.
+func mappingsFor(maps []mapping, own, other int, otherpts []uint8) []string {
+	var first, rest []string
+next:
+	for _, m := range maps {
+		if m.section == own {
+			first = append(first, m.text)
+			continue
+		}
+		if m.section == other {
+			for _, pt := range otherpts {
+				if strings.HasPrefix(m.text, strconv.Itoa(int(pt))+" ") {
+					continue next
+				}
+			}
+		}
+		rest = append(rest, m.text)
+	}
+	return append(first, rest...)
+}
+
 // Here we take the list of payload types from the m= line (e.g. 9 18 0 101)
 // and turn them into a list of codecs.
 //
-- 
2.43.0


From d3806dec0126204f30e31282b842ae2d0ec58086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 32/54] fix: rtp: bind to an IPv6 host given without a port

---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index 7ad33d0..e67f47c 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -224,7 +224,7 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 }
 
 func Listen(host string) (sock net.PacketConn, err error) {
-	if strings.Contains(host, ":") {
+	if _, _, err := net.SplitHostPort(host); err == nil {
 		return net.ListenPacket("udp", host)
 	}
 	for i := 0; i < rtpBindMaxAttempts; i++ {
-- 
2.43.0


From 6c44350a0548ddd1bffef74397683704ed05c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 33/54] fix: dsp: mixing crashed on frames that aren't 16-byte
 aligned

---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..d509317 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0	// frames may lie at any address
+	MOVOU	0(AX), X1
+	PADDSW	X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From 7efdbf253bc011d7f60a7feef9173496f38ab719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 34/54] fix: dialog: a retransmitted 200 undid a target refresh

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b47dadb..3c84dcd 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -341,9 +341,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
 			if dls.remote == nil {
+				dls.remote = msg
 				dls.transition(Answered)
 			}
-			dls.remote = msg
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
 			return false
-- 
2.43.0


From 875e29b5075cb8d7eaf03f6a31b17c8303575afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 35/54] fix: dialog: an ACK was matched by arrival order
 instead of its CSeq

---
 dialog/dialog.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 3c84dcd..6bb7667 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -382,12 +382,17 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.errChan <- errors.New("Remote froot loop detected")
 		return false
 	}
+	if msg.Method == sip.MethodAck {
+		if dls.response != nil && msg.CSeq == dls.response.CSeq {
+			// Re-INVITE response has been ACK'd.
+			dls.response = nil
+			dls.responseTimer = nil
+		}
+		return true
+	}
 	if dls.rseq == 0 {
 		dls.rseq = msg.CSeq
 	} else {
-		if msg.CSeq < dls.rseq && msg.Method == sip.MethodAck {
-			return true
-		}
 		if msg.CSeq < dls.rseq {
 			// RFC 3261 mandates a 500 response for out of order requests.
 			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
@@ -411,10 +416,6 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
-	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
-		return true
 	default:
 		return dls.send(NewResponse(msg, sip.StatusMethodNotAllowed))
 	}
-- 
2.43.0


From 371704067c2e20adf30aa7c7da6b6538a8b77f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 36/54] fix: dialog: a refused retransmission cost the next
 address one of its own

---
 dialog/dialog.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 6bb7667..b9d7858 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -462,11 +462,9 @@ func (dls *dialogState) resendRequest() bool {
 		return true
 	}
 	if dls.requestResends < *maxResends {
-		if !dls.send(dls.request) {
-			return false
-		}
 		dls.requestResends++
 		dls.requestTimer = time.After(duration(resendInterval))
+		return dls.send(dls.request)
 	} else {
 		log.Printf("Timeout: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
 		if !dls.popRoute() {
-- 
2.43.0


From a11c6cbfaeaab153c0705f83fe6dfed0078caf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 37/54] fix: dialog: a success other than 200 was reported as a
 failure

---
 dialog/dialog.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b9d7858..a124104 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -329,10 +329,14 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		log.Printf("Ignoring provisional response that arrived late\r\n")
 		return true
 	}
-	if msg.Status <= sip.StatusOK {
+	status := msg.Status
+	if status > sip.StatusOK && status < sip.StatusMultipleChoices {
+		status = sip.StatusOK // Every 2xx means success.
+	}
+	if status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-	switch msg.Status {
+	switch status {
 	case sip.StatusTrying:
 		dls.transition(Proceeding)
 	case sip.StatusRinging, sip.StatusSessionProgress:
@@ -366,7 +370,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
 	default:
-		if msg.Status > sip.StatusOK {
+		if status > sip.StatusOK {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
-- 
2.43.0


From 7b3415b2f35509e9f6c2e2426dc9a6fda3cbc95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 38/54] fix: dialog: hanging up twice replaced the outstanding
 BYE

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index a124104..e6fb222 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -511,6 +511,9 @@ func (dls *dialogState) sendHangup() bool {
 	case Proceeding, Ringing:
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
+		if dls.request.Method == sip.MethodBye {
+			return true // Already hanging up.
+		}
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
 	case Hangup:
 		panic("Why didn't the event loop break?")
-- 
2.43.0


From f9faf1d5f80b552ebadba80a3c4e2928fd15986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 39/54] fix: dialog: a provisional response made a later 503
 skip the other addresses

---
 dialog/dialog.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e6fb222..06e49f8 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -322,8 +322,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	routes := dls.routes
-	dls.routes = nil
+	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status < sip.StatusOK && dls.state >= Answered {
 		log.Printf("Ignoring provisional response that arrived late\r\n")
@@ -355,7 +356,6 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	case sip.StatusServiceUnavailable:
 		if dls.request == dls.invite {
 			log.Printf("Service unavailable: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
-			dls.routes = routes
 			return dls.popRoute()
 		} else {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
-- 
2.43.0


From 247d3f236bb05e24e2a013fca0fd69cbf25ff0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 40/54] fix: dialog: a 503 from the last address was not
 reported as the error

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 06e49f8..ad0030a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -354,7 +354,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusServiceUnavailable:
-		if dls.request == dls.invite {
+		if dls.request == dls.invite && dls.routes != nil {
 			log.Printf("Service unavailable: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
 			return dls.popRoute()
 		} else {
-- 
2.43.0


From 1b80c89bc799df5c7d2ad625c355287e9c695909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 41/54] fix: dialog: a call hung up too early was placed
 elsewhere or left answered

---
 dialog/dialog.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index ad0030a..ef1b998 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -74,6 +74,7 @@ type dialogState struct {
 	response        *sip.Msg         // Current outbound request message.
 	responseResends int              // Number of REsends of message so far.
 	responseTimer   <-chan time.Time // Resend timer for message.
+	cancelled       bool             // Hung up before being answered.
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
 	b               bytes.Buffer     // Outbound message buffer.
@@ -348,6 +349,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			if dls.remote == nil {
 				dls.remote = msg
 				dls.transition(Answered)
+				if dls.cancelled {
+					return dls.sendHangup() // CANCEL came too late.
+				}
 			}
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
@@ -362,7 +366,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if dls.request != dls.invite || msg.Contact == nil {
+		if dls.request != dls.invite || msg.Contact == nil || dls.cancelled {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
@@ -509,6 +513,8 @@ func (dls *dialogState) resendResponse() bool {
 func (dls *dialogState) sendHangup() bool {
 	switch dls.state {
 	case Proceeding, Ringing:
+		dls.cancelled = true
+		dls.routes = nil // It must not be placed anywhere else.
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
 		if dls.request.Method == sip.MethodBye {
-- 
2.43.0


From 354e9a9f70ffecd30544cd8fcef4c54588b85ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 42/54] fix: dialog: datagrams over 2048 bytes were cut off

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 6c7212f..f643769 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65536)
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From a513defb382497d8ccffa836960bd42e59eba4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 43/54] fix: dialog: the body of a received message changed
 with the next datagram

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index f643769..9977024 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := append([]byte(nil), buf[0:amt]...) // Messages keep parts of it.
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 7fd913b1dabbdf3c79a9a8fda08290d3d68644d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 44/54] fix: dialog: an rport out of range wrapped around

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 245015b..180fb83 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -95,7 +95,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From 31d39504f32c3d4f40a41695f21d042f177531ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 45/54] fix: dialog: a response was routed to an empty received
 address

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 180fb83..f15a717 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -86,7 +86,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 			return "", 0, errors.New("Response has no Via to route to")
 		}
 		host, port = msg.Via.Host, msg.Via.Port
-		if received := msg.Via.Param.Get("received"); received != nil {
+		if received := msg.Via.Param.Get("received"); received != nil && received.Value != "" {
 			host = received.Value
 		}
 
-- 
2.43.0


From 258657ce3b82c9a14dc563abae1e071805ff6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 46/54] fix: dialog: a request whose hops were used up was sent
 with a full Max-Forwards

---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index ad7a8f2..d7d74e6 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -89,6 +90,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
+		if msg.MaxForwards == 0 && !msg.IsResponse() {
+			return errors.New("Local froot loop detected")
+		}
 	}
 	ts := time.Now()
 	addTimestamp(msg, ts)
-- 
2.43.0


From f8d5d64a721f2516113d44da4bd3908a292f9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 47/54] fix: dialog: a failure or redirect arriving after the
 answer undid the call

---
 dialog/dialog.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index ef1b998..0dcffa5 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -327,8 +327,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		dls.routes = nil
 	}
 	dls.requestTimer = nil
-	if msg.Status < sip.StatusOK && dls.state >= Answered {
-		log.Printf("Ignoring provisional response that arrived late\r\n")
+	if dls.state >= Answered && (msg.Status < sip.StatusOK ||
+		dls.request == dls.invite && msg.Status >= sip.StatusMultipleChoices) {
+		log.Printf("Ignoring response that arrived late\r\n")
 		return true
 	}
 	status := msg.Status
-- 
2.43.0


From 7a73bbd01890bcbf1bbdc59e9f5131362402465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 48/54] fix: dialog: each retransmission used up a hop of the
 request

---
 dialog/dialog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0dcffa5..0f20cf2 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -440,6 +440,7 @@ func (dls *dialogState) checkSDP(msg *sip.Msg) {
 }
 
 func (dls *dialogState) send(msg *sip.Msg) bool {
+	hops := msg.MaxForwards
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
 		if msg.MaxForwards == 0 {
@@ -451,6 +452,7 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 	addTimestamp(msg, ts)
 	dls.b.Reset()
 	msg.Append(&dls.b)
+	msg.MaxForwards = hops // Retransmissions start over.
 	if *tracing {
 		trace("send", dls.b.Bytes(), dls.sock.RemoteAddr())
 	}
-- 
2.43.0


From fbde7b3a7e970f8c40514c053c1f6b77c5b987f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 49/54] fix: dialog: a call that drew CSeq 0 changed its CSeq
 at the next address

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index f15a717..a778a7f 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -48,7 +48,7 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 			msg.CallID = util.GenerateCallID()
 		}
 		if msg.CSeq == 0 {
-			msg.CSeq = util.GenerateCSeq()
+			msg.CSeq = 1 + util.GenerateCSeq() // Zero means it has none yet.
 		}
 		if msg.CSeqMethod == "" {
 			msg.CSeqMethod = msg.Method
-- 
2.43.0


From cb778b977bfb9b31a92725d2b15165168baf8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 50/54] fix: dialog: a call through a strict router named the
 router in its To

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0f20cf2..f010aab 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -151,6 +151,9 @@ func (dls *dialogState) run() {
 }
 
 func (dls *dialogState) sendRequest(request *sip.Msg) bool {
+	if request.To == nil {
+		request.To = &sip.Addr{Uri: request.Request} // Routing may change it.
+	}
 	host, port, err := RouteMessage(nil, nil, request)
 	if err != nil {
 		dls.errChan <- err
-- 
2.43.0


From 10206d9fc064237cc0e1c2e266599fd239ccb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 51/54] fix: dialog: an empty datagram crashed the receiver

A nil packet (which the copy introduced in a513def made of an empty
datagram) parses to no message and no error.
---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 9977024..cae1af7 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := append([]byte(nil), buf[0:amt]...) // Messages keep parts of it.
+		packet := append([]byte{}, buf[0:amt]...) // Messages keep parts of it.
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From a1eaa29acd3cb67fa81307a24d6f339ff8903a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 52/54] fix: AckMatch never matched an ACK that came through a
 proxy

---
 dialog/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/messages.go b/dialog/messages.go
index d9c62a8..e5ac351 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -134,5 +134,5 @@ func AckMatch(msg, ack *sip.Msg) bool {
 		ack.Method == sip.MethodAck &&
 		ack.CSeq == msg.CSeq &&
 		ack.CSeqMethod == sip.MethodAck &&
-		ack.Via.Last().CompareHostPort(msg.Via))
+		ack.Via.Last().CompareHostPort(msg.Via.Last()))
 }
-- 
2.43.0


From cd7ad7568932228ef385c86f3cec801175f4e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 53/54] fix: a retransmitted answer redirected the audio to
 where it had been before

---
 dialog/dialog.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index f010aab..c8ea2b7 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -339,8 +339,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	if status > sip.StatusOK && status < sip.StatusMultipleChoices {
 		status = sip.StatusOK // Every 2xx means success.
 	}
-	if status <= sip.StatusOK {
-		dls.checkSDP(msg)
+	if status <= sip.StatusOK && dls.remote == nil {
+		dls.checkSDP(msg) // The answer's retransmissions may be out of date.
 	}
 	switch status {
 	case sip.StatusTrying:
-- 
2.43.0


From 60e077d1cc5d9b5ab9ebe04f772972c75b0c5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 54/54] fix: the ACK of an answer was not made fit for a strict
 router

---
 dialog/dialog.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index c8ea2b7..40ebe04 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -322,7 +322,16 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
 			return false
 		}
-		if !dls.send(NewAck(msg, dls.request)) {
+		ack := NewAck(msg, dls.request)
+		if msg.Status < sip.StatusMultipleChoices && ack.Route != nil {
+			// We may be talking to a strict router.
+			routed := ack.Copy()
+			host, port, err := RouteMessage(nil, nil, routed)
+			if err == nil && net.JoinHostPort(host, util.Portstr(or5060(port))) == dls.addr {
+				ack = routed
+			}
+		}
+		if !dls.send(ack) {
 			return false
 		}
 	}
-- 
2.43.0

