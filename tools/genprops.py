#!/usr/bin/env python3
# Writes properties.jsonl. One record per property; the text here is the source.
import json, os
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Parsers are total: any bytes give one result or one error, never a crash",
"For every byte string, parsing it as a SIP message, a SIP URI or an SDP description terminates without crashing, leaves the caller's bytes untouched, gives the same answer every time, and returns either a usable result or an error but never both or neither (a nil slice yields nil, nil). Every error it returns, and every message it accepts, can in turn be printed without crashing.",
["inputs"],"all byte strings up to the explored length, every grammar state crossed with every next byte, truncation of accepted messages at every offset, every single-byte substitution, insertion and deletion of accepted messages",
"The tests parse about 120 fixed strings; a crash or hang needs one particular byte in one of about 800 parser states, which arrives from the network.",
["sip/msg_parse.go","sip/uri_parse.go","sip/msg_parse.rl","sip/uri_parse.rl","sip/sip.rl","sdp/sdp.go","sip/msgerror.go"],
[("generated Ragel state machines","sip/msg_parse.go ParseMsg, sip/uri_parse.go ParseURI"),("line-oriented SDP parser","sdp/sdp.go Parse"),("error rendering","sip/msgerror.go")],
["ParseMsg","ParseURI","sdp.Parse","error.Error()","Msg.String()"])

p("C02","A SIP message is accepted exactly when grammatical, and its fields are right",
"A datagram is accepted exactly when it conforms to the supported SIP grammar, and then every start-line element, header field, parameter, list element and body of the result equals what the text says: case-insensitive and compact header names, folded lines, quoted and escaped text, comma-separated and repeated headers in order, unknown headers kept verbatim. A rejected datagram is reported as incomplete, or as wrong at the exact offset of the first byte that cannot continue any grammatical message. Numbers too large for their field are rejected, and the body is delimited by Content-Length when present, else by the end of the datagram.",
["inputs"],"all grammar states x all next bytes, all grammatical switches between two header/element forms, all combinations of the structured alphabet (header forms x values x separators x bodies)",
"The tests compare some 60 fixed messages; the grammar has about 780 states with per-state copies of the field-extraction code, and a mistake in one copy shows only for inputs that cross that state.",
["sip/sip.rl","sip/msg_parse.rl","sip/msg_parse.go","sip/util.go","sip/charsets.go"],
[("grammar and actions","sip/sip.rl"),("generated parser","sip/msg_parse.go ParseMsg"),("body extraction","sip/msg_parse.rl")],
["ParseMsg result and error"])

p("C03","A SIP URI is accepted exactly when grammatical, and decoded right",
"A string is accepted as a SIP URI exactly when it conforms to the supported grammar (scheme, optional user and password, host name, IPv4 or bracketed IPv6 host, optional port, parameters, headers), and then scheme, user, password, host, port and every parameter and header equal the percent-decoded text in order, with scheme and host lower-cased. Ports above 65535 and incomplete escapes are rejected. Parameter and header lookup by name ignores case, host/port comparison treats a missing port as the scheme's default (5061 for sips, else 5060).",
["inputs"],"all URI grammar states x all next bytes, all strings over a structural alphabet up to the explored length, all component combinations, all 256 escaped values",
"The tests parse 20-odd URIs; decoding is spread over generated states and each escape, delimiter and component order needs its own input.",
["sip/uri_parse.rl","sip/uri_parse.go","sip/uri.go","sip/uriparam.go","sip/uriheader.go"],
[("generated parser","sip/uri_parse.go ParseURI"),("lookup and comparison","sip/uri.go, sip/uriparam.go, sip/uriheader.go")],
["ParseURI result and error","URI.CompareHostPort","URIParam.Get","URIHeader.Get"])

p("C04","Writing a SIP message and parsing it back gives the same message",
"For every well-formed message (request or response, with any combination of supported headers, address lists, Via chains, parameters, extension headers and body), parsing the text it is written as yields an equal message, and writing that again yields the same bytes. Nothing that was set is lost, renamed, reordered or duplicated, no header that was not set appears (other than those below), and the written Content-Length is the exact body length. Omitted optional fields take their documented defaults (SIP 2.0, UDP, Max-Forwards 70, standard reason phrase, default port), and a registration's Expires is written even when it is 0.",
["inputs"],"all combinations of header subsets, list lengths and values in the explored alphabet; each of the 50-odd headers alone, in pairs, and all together",
"The tests print a handful of messages and compare with fixed text; loss or corruption depends on which of dozens of optional fields are present together.",
["sip/msg.go","sip/addr.go","sip/via.go","sip/param.go","sip/xheader.go","sip/msg_parse.go"],
[("message writer","sip/msg.go Append"),("element writers","sip/addr.go, sip/via.go, sip/param.go, sip/xheader.go"),("parser","sip/msg_parse.go")],
["Msg.Append","Msg.String","ParseMsg"])

p("C05","Any bytes survive in the escapable parts of a URI or address",
"For every URI whose user, password, parameter and header names and values are arbitrary byte strings (hosts and schemes being valid), writing it and parsing it back gives the same components, whether alone or inside an address with a display name and parameters. No byte of one component can end up in another.",
["inputs"],"all 256 bytes, all pairs of bytes, and all strings over the structural alphabet up to the explored length, in every component position",
"The tests escape a space and a few fixed strings; each reserved byte has to be escaped differently in each component.",
["sip/escape.go","sip/charsets.go","sip/uri.go","sip/uriparam.go","sip/uriheader.go","sip/uri_parse.go","sip/addr.go"],
[("per-component escape sets","sip/charsets.go"),("escaping writers","sip/escape.go, sip/uri.go, sip/uriparam.go, sip/uriheader.go")],
["URI.String","Addr.String","ParseURI","ParseMsg"])

p("C06","Text fields cannot break out of their header line",
"Whatever bytes a display name, an address or Via parameter value, a parameter name, a reason phrase or an extension header name contains, the written message has the same header lines and list elements as with a harmless value, so data can never inject a header, a parameter or a body. Display names and parameter values made of text and valid UTF-8 (including quotes, backslashes, leading or trailing blanks and folded lines) come back unchanged when parsed; at a byte that cannot be represented the text is cut there and what precedes it comes back.",
["inputs"],"all byte strings up to length 2 over all 256 bytes and up to the explored length over a structural alphabet (quote, backslash, CR, LF, blank, tab, separators, UTF-8 lead and continuation bytes), in each text position",
"The tests quote seven fixed strings; injection depends on specific byte sequences in a specific position.",
["sip/quote.go","sip/charsets.go","sip/addr.go","sip/param.go","sip/msg.go","sip/xheader.go"],
[("quoting","sip/quote.go"),("reason phrase escaping","sip/msg.go"),("sanitized names","sip/param.go, sip/xheader.go")],
["Msg.String","Addr.String","ParseMsg"])

p("C07","Copies are independent of the original, and writing or reading never modifies",
"A copy of a message, address, Via or URI equals the original in everything it carries, and afterwards no change made through either one (to any address, Via, URI, parameter, URI header or extension header reachable from it) is visible through the other. Writing, printing, comparing, searching, measuring, reversing or detaching never changes the thing operated on.",
["inputs","histories"],"every message shape in the explored alphabet x every reachable mutable field x both directions, every read operation",
"No test copies anything and then mutates it; aliasing shows only when a specific nested field is changed afterwards.",
["sip/msg.go","sip/addr.go","sip/via.go","sip/uri.go","sip/param.go","sip/uriparam.go","sip/uriheader.go","sip/xheader.go"],
[("copy functions","sip/*.go Copy"),("list helpers","sip/addr.go Reversed/Last/Len, sip/via.go Detach/Last")],
["Copy","Append","String","Reversed","Detach","Last","Len","Or"])

p("C08","An SDP description is understood exactly or refused",
"An SDP text is accepted exactly when it starts with a version line, has a valid origin and connection line and at least one audio or video line whose payload types can all be resolved; then addresses, ports, protocols, the ordered codec lists (with names, rates, parameters and formats from their own mapping lines or the IANA table), ptime, direction and session name equal the text. Unknown attributes and lines are kept in order, malformed optional lines are ignored, and malformed mandatory information is an error.",
["inputs"],"all sequences of lines from the explored line alphabet up to the explored length, all 256 payload types with and without mapping lines, all mutations of each token of each line",
"The tests parse a dozen fixed descriptions; the outcome depends on which lines are present, in which order, and on each payload type.",
["sdp/sdp.go","sdp/codecs.go","sdp/media.go","sdp/origin.go"],
[("line parser","sdp/sdp.go Parse"),("codec resolution","sdp/sdp.go populateCodecs, sdp/codecs.go")],
["sdp.Parse"])

p("C09","An SDP description survives being written and parsed back",
"For every well-formed SDP value (any mix of audio and video, codecs, IPv4 or IPv6 addresses, attributes, direction and extra lines), parsing what it is written as yields an equal value and writing again yields the same bytes. A newly created offer carries the given address, port and codecs in order with a fresh origin ID, and does not alias the caller's codec list.",
["inputs"],"all combinations of the explored field alphabets, codec lists up to the explored length over the IANA table and dynamic types",
"The tests print a few fixed values; field loss or misplacement depends on the combination of optional parts.",
["sdp/sdp.go","sdp/media.go","sdp/codec.go","sdp/origin.go"],
[("writers","sdp/sdp.go Append, sdp/media.go, sdp/codec.go, sdp/origin.go"),("offer construction","sdp/sdp.go New")],
["SDP.String","SDP.Data","sdp.Parse","sdp.New"])

p("C10","RTP and telephone-event headers use the exact RFC wire layout",
"For every field value, a written RTP header is the 12-byte RFC 3550 header (version 2, no extension, no CSRCs, network byte order) appended to the given buffer, and a telephone-event header is the 4-byte RFC 4733 layout; reading either back restores every field. Reading rejects anything shorter than 12 bytes, a version other than 2 or an extension bit, with the matching error and without touching the header value, and accepts everything else.",
["inputs"],"every value of every byte of the header (all single-byte values, all pairs of first two bytes), all lengths 0..32, every field's full or bit-walking range, all 2^32 event headers in the thorough run",
"Two tests encode one header; a wrong mask or shift affects only some bit patterns.",
["rtp/rtp.go"],[("header codec","rtp/rtp.go Header.Write/Read, EventHeader.Write/Read")],["Header.Write","Header.Read","EventHeader.Write","EventHeader.Read"])

p("C11","Packets sent in an RTP session form one continuous stream",
"Over any sequence of audio frames, raw payloads and DTMF digits, with any write failing, every packet that leaves carries a sequence number one above that of the previous packet taken from the session (modulo 2^16), a timestamp advanced by exactly the samples of the media sent before it, the session's constant SSRC, the right payload type and the exact payload (audio is the frame's mu-law encoding, 160 samples per packet; raw data unchanged), and goes to the current peer. The marker bit appears only on the first packet of a DTMF event. With no peer or no socket nothing is sent and nothing changes, and caller data is never modified.",
["histories","fault_sequences","inputs"],"all operation sequences up to the explored depth over {frame, raw, digit, bad digit, change/clear peer, failing write at each packet} from ordinary and wrap-around sequence/timestamp values",
"The session test opens and closes a session; continuity across operations, wrap-around and failures is never exercised.",
["rtp/session.go","rtp/rtp.go","dsp/dsp_amd64.s"],[("senders","rtp/session.go Send, SendRaw, SendDTMF")],["UDP datagrams written by the session","returned errors"],
[("Header","current seq/ts/ssrc/marker","rtp/session.go Session")],"none (UDP replaced by an in-memory network at build time)")

p("C12","DTMF digits map one-to-one to events and are sent as complete event trains",
"Characters 0-9 * # A-D (either case) and ! correspond one-to-one to telephone events 0-16 in both directions and everything else is refused with an error and nothing sent. Sending a digit emits update packets with the event's code, one timestamp, consecutive sequence numbers, strictly increasing durations and the marker only on the first, followed by three end packets with the final duration and the end bit. Every event has a timestamp different from the events before it.",
["inputs","histories","fault_sequences"],"all 256 characters and event codes; all sequences of digits and audio up to the explored depth, failing writes at each packet",
"No test sends or maps a digit.",
["rtp/dtmf.go","rtp/session.go"],[("maps","rtp/dtmf.go, rtp/session.go dtmfCodes"),("event sender","rtp/session.go SendDTMF")],["DtmfToChar","CharToDtmf","Session.SendDTMF packets"],None,"none (UDP replaced by an in-memory network at build time)")

p("C13","RTP reception delivers exactly the audio received, and shuts down cleanly",
"Every received datagram that is a complete 172-byte PCMU RTP packet is delivered exactly once, in arrival order, as the decoded 160 samples, and all others are ignored without affecting later ones; a delivered frame does not change until it is handed back. At whatever moment the session is closed, or the socket fails, the error is reported once, closing returns, the receiving task ends and the socket is released; closing again does nothing.",
["histories","schedules","fault_sequences"],"all sequences up to the explored depth over {valid packet, wrong payload type, short, long, bad version, extension, empty datagram, socket error, application takes/returns frame, Close, CloseAfterError} at every point",
"The tests open and close an idle session; no packet is ever received in a test.",
["rtp/session.go","rtp/rtp.go","dsp/dsp_amd64.s"],[("receiver task","rtp/session.go receiver"),("shutdown hand-shake","rtp/session.go Close, CloseAfterError")],["frames on C","errors on E","Close return","task termination"],None,"none (UDP replaced by an in-memory network at build time)")

p("C14","RTP ports are even, in range, and conflicts are retried",
"When no port is given, a media socket is bound to the requested host on an even port between 16384 and 32768; while ports are in use, further ports are tried up to ten attempts in all, any other failure is reported at once, and success never leaks an earlier socket. A host with an explicit port is bound exactly as given, once.",
["inputs","fault_sequences"],"every random draw residue, every pattern of {in use, other error, success} over the ten attempts",
"The tests bind once on an idle machine; parity, range ends and congestion depend on the random draw and on other programs.",
["rtp/session.go"],[("port selection","rtp/session.go Listen")],["bind attempts","returned socket and error"],None,"none (network and random source replaced at build time)")

p("C15","mu-law coding is exactly G.711",
"Every 16-bit sample is encoded to the G.711 mu-law byte for it and every byte decodes to the G.711 value; encoding a decoded byte gives back that byte (both zeros being the same value), the error never exceeds half a quantisation step within range, larger magnitudes saturate with the right sign, and encoding is monotonic.",
["inputs"],"all 65536 samples, all 256 bytes, all values near powers of two and range ends of 64-bit inputs",
"The tests compare a few values; the assembly has separate paths per sign, segment and saturation.",
["dsp/dsp_amd64.s","dsp/dsp.go"],[("assembly codec","dsp/dsp_amd64.s LinearToUlaw, UlawToLinear")],["LinearToUlaw","UlawToLinear"])

p("C16","Mixing audio saturates per sample and touches nothing else",
"Mixing adds each of the 160 source samples to the corresponding destination sample, clamped to the 16-bit range, for every combination of values. The source and all memory around both frames are unchanged.",
["inputs"],"all 2^32 sample pairs (all lanes), every position 0..159 with distinct values, guard areas on both sides",
"One test mixes constant frames; lane, position and overflow errors need specific values.",
["dsp/dsp_amd64.s"],[("SIMD saturating add","dsp/dsp_amd64.s L16MixSat160")],["L16MixSat160"])

p("C17","Comfort noise is deterministic, bounded and independent per generator",
"For a given seed and level a noise generator always yields the same sample sequence, that of the documented algorithm scaled to the level (dBm0 levels being 6.16 dB above dBov) and clamped to 16 bits; a negative seed is the same as its absolute value. Generators never influence one another.",
["inputs","histories"],"all seeds and levels of the explored grid, sequences of the explored length, all interleavings of two generators up to the explored depth",
"The test prints/compares one generator at one seed; seeds, levels and interleavings are not covered.",
["dsp/awgn.go"],[("generator","dsp/awgn.go NewAWGN*, Get")],["AWGN.Get"])

p("C18","Each message is routed to the right next hop",
"A request goes to its first Route entry after our own entry is removed (or to the request URI without one); if that entry is a strict router the request URI becomes that entry and the old request URI is appended to the route, and registrations are never routed. A response goes to the top Via after our own Via is removed, at the received address and rport port when given, else its host and port. Nothing else in the message changes, and a response with no Via left or a bad rport is an error rather than a crash.",
["inputs"],"all combinations of route sets up to three entries (own/other, loose/strict, with/without port), request URIs, methods, Via stacks up to three, received/rport present/empty/bad",
"Routing has no tests at all.",
["dialog/route.go","sip/uri.go","sip/via.go","sip/addr.go"],[("next-hop selection","dialog/route.go RouteMessage")],["RouteMessage result and message effects"])

p("C19","Outgoing requests are completed, never overwritten, and do not affect each other",
"Before a request leaves, every mandatory element it lacks (Via with branch, Contact, To, From with tag, Call-ID, CSeq with method, Max-Forwards, User-Agent) is filled in and everything the application set is kept, while responses are not completed. The datagram that leaves is exactly the message's text, with Max-Forwards one lower, sent once to the routed host (default port 5060). Sending any sequence of messages never changes the transport's own Via or Contact, and each request gets its own branch, tag and Call-ID.",
["inputs","histories"],"all subsets of pre-set fields, all sequences of up to the explored number of messages on one transport including failures to resolve or write",
"The transport has no tests; leakage between messages needs at least two sends.",
["dialog/route.go","dialog/transport.go","dialog/messages.go","util/util.go"],[("completion","dialog/route.go PopulateMessage"),("sending","dialog/transport.go Send")],["datagrams written","message and transport fields after Send","returned errors"],None,"none (UDP and DNS replaced by in-memory stand-ins at build time)")

p("C20","Each datagram received becomes one message, in order, with its origin recorded",
"Every well-formed datagram is delivered exactly once and in order with the text's contents; a request whose top Via differs from the actual source gains the received address and the rport port, our own top Route entry is removed and a request URI mangled by a strict router is restored from the last Route entry, while responses are left as they came. Malformed datagrams are dropped without affecting later ones, delivered messages never change afterwards, and when the socket fails or is closed the error is reported once and both channels close.",
["histories","inputs","fault_sequences"],"all sequences up to the explored depth over an alphabet of well-formed and malformed datagrams, source addresses, and socket errors; all Via/Route/request-URI combinations of the explored alphabet",
"The receiver has no tests.",
["dialog/receiver.go","dialog/transport.go"],[("receiver task","dialog/receiver.go ReceiveMessages"),("origin recording and route fix-ups","dialog/receiver.go")],["messages on C","errors on E"],None,"none (UDP replaced by an in-memory network at build time)")

p("C21","A destination resolves to the right ordered list of addresses",
"An IP address resolves to itself with the given port or 5060, without any lookup. A host name without a port resolves, when service lookup is wanted and answers, to all advertised targets in the order given; otherwise, and always with an explicit port, to the single host address with that port or 5060, and a failed lookup is an error.",
["inputs","fault_sequences"],"all combinations of host kind, port, service wanted, service answers of 0..3 records, lookup failures",
"Resolution has no tests and depends on DNS answers.",
["dialog/route.go"],[("resolution","dialog/route.go RouteAddress")],["RouteAddress result, lookups made"],None,"none (DNS replaced by an in-memory stand-in at build time)")

p("C22","A call never crashes or hangs, and always cleans up after itself",
"Whatever datagrams arrive, in whatever order and mixed with timeouts, network refusals, socket errors and hang-ups at any moment, a call never crashes and never stops reacting. Once it ends, for whatever reason, all its channels are closed, all its sockets are closed and no task or timer of it is left behind, as long as the application keeps reading its channels.",
["histories","schedules","fault_sequences"],"all event histories up to the explored depth over the response/request/fault/timer/hang-up alphabet, with the application reading promptly or late, strict and loose signalling",
"The dialog package has no tests (its examples need a live SIP server); the failures live in rare orders of network events.",
["dialog/dialog.go","dialog/receiver.go"],[("event loop","dialog/dialog.go run"),("cleanup","dialog/dialog.go cleanup, cleanupSock, cleanupCSock")],["channels closed","sockets closed","tasks left"],[("dls","whole call state","dialog/dialog.go dialogState")],"none (UDP, DNS and clock replaced at build time)")

p("C23","Call progress is reported truthfully, in order, and once",
"The reported states reflect the matching responses received: trying, then ringing, then answered exactly once, and hang-up last; a call never goes back after being answered and nothing is reported after hang-up. Responses of other transactions and retransmissions never cause a report of being answered. A failed call ends with exactly one error naming the cause (the failure response itself when there is one), and a call that ended by hang-up reports no error.",
["histories","schedules"],"all event histories up to the explored depth",
"The dialog package has no tests; wrong reports need late, repeated or reordered responses.",
["dialog/dialog.go"],[("response handling","dialog/dialog.go handleResponse, transition")],["OnState","OnErr"],[("state","lifecycle","dialog/dialog.go dialogState.state")],"none (UDP, DNS and clock replaced at build time)")

p("C24","Unanswered requests are retransmitted and then the next address is tried",
"An unanswered request is retransmitted unchanged in identity (same branch, Call-ID, CSeq, tags) at the configured interval up to the configured number of times, and stops being retransmitted as soon as any matching response arrives. When the retransmissions run out, an address refuses, cannot be dialled, or answers 503 to the call, the next address in order is tried with the same Call-ID and CSeq and a fresh branch; when none is left the call fails with one error. A redirect restarts the call at the new contact without the old route.",
["histories","fault_sequences"],"all address lists of up to three with each address answering, staying silent, refusing, undialable or answering 503/302, at every retransmission point, for several interval/limit settings",
"The dialog package has no tests; failover needs several misbehaving servers and timers.",
["dialog/dialog.go","dialog/route.go","util/util.go"],[("retransmission","dialog/dialog.go resendRequest"),("failover","dialog/dialog.go popRoute, connect"),("refusal detection","util/util.go IsRefused")],["datagrams sent with virtual times","OnErr"],[("routes/requestResends/requestTimer","what to try next","dialog/dialog.go dialogState")],"none (UDP, DNS and clock replaced at build time)")

p("C25","Every final response to the INVITE is acknowledged correctly, and only those",
"Each matching final response to the INVITE, including every retransmission, is answered with exactly one ACK carrying the INVITE's Call-ID, CSeq number and From and the response's To. For a success it is addressed to the response's Contact along the reversed Record-Route (rewritten for a strict router when that is whom we talk to); for any other it has the INVITE's own request URI and Route. Provisional responses, responses to other requests or transactions, and requests are never acknowledged.",
["histories"],"all event histories up to the explored depth over all response classes with and without Contact, Record-Route and matching Via/CSeq/Call-ID",
"The dialog package has no tests; ACK rules differ per status class.",
["dialog/dialog.go","dialog/messages.go"],[("ACK","dialog/messages.go NewAck, dialog/dialog.go handleResponse"),("matching","dialog/messages.go ResponseMatch")],["datagrams sent"],None,"none (UDP, DNS and clock replaced at build time)")

p("C26","Hanging up cancels an unanswered call and ends an answered one",
"Hanging up before the answer sends a CANCEL with the INVITE's request URI, Call-ID, From, To, CSeq number, top Via and Route; hanging up after the answer sends a BYE to the remote target (as last refreshed) along the route set, with the dialog's tags and Call-ID and the next CSeq number. An accepted BYE, or a BYE from the other side, ends the call with the hang-up report. No call that was answered is ever abandoned without a BYE when the application hangs up.",
["histories"],"all event histories up to the explored depth with hang-up (up to twice) at every point",
"The dialog package has no tests.",
["dialog/dialog.go","dialog/messages.go"],[("hang-up","dialog/dialog.go sendHangup"),("CANCEL and BYE","dialog/messages.go NewCancel, NewBye")],["datagrams sent","OnState"],[("remote, lseq","remote target and local counter","dialog/dialog.go dialogState")],"none (UDP, DNS and clock replaced at build time)")

p("C27","Requests from the other side get exactly one right answer each",
"A request within the call gets exactly one response with its own Via, From, To, Call-ID and CSeq: 200 for BYE, OPTIONS and re-INVITE, 405 for other methods, 500 when its CSeq is lower than an earlier one, 483 when its Max-Forwards is used up, 481 when the Call-ID is not this call's, 505 for another SIP version. The answer to a re-INVITE is retransmitted until acknowledged or the limit is reached. Responses and ACKs are never answered.",
["histories"],"all event histories up to the explored depth over request methods, CSeq orders, Max-Forwards, Call-ID, version",
"The dialog package has no tests.",
["dialog/dialog.go","dialog/messages.go"],[("request handling","dialog/dialog.go handleMessage, handleRequest, sendResponse, resendResponse")],["datagrams sent with virtual times"],[("rseq, response, responseTimer","remote counter and pending answer","dialog/dialog.go dialogState")],"none (UDP, DNS and clock replaced at build time)")

p("C28","The application is told where to send media, exactly when it is negotiated",
"Every matching provisional response until the answer, the success response that answers the call, and every re-INVITE, that carries an SDP with audio makes the call report that SDP's address and audio port, once per message and in order. Nothing else does: no SDP, no audio, failure responses, retransmissions of the answer, foreign transactions or calls. The INVITE's own SDP goes out with the local address filled in where the application left it blank and unchanged elsewhere.",
["histories","inputs"],"all event histories up to the explored depth with SDP variants (none, audio, video only, IPv6, other body type) on every message kind",
"The dialog package has no tests.",
["dialog/dialog.go","sdp/sdp.go"],[("peer reporting","dialog/dialog.go checkSDP"),("offer completion","dialog/dialog.go populate")],["OnPeer","INVITE body"],None,"none (UDP, DNS and clock replaced at build time)")

p("C29","Message builders and matchers follow the protocol for every message",
"Built requests, responses, ACKs, CANCELs and BYEs carry exactly the fields the protocol derives from their inputs (identity, addresses, Via, CSeq and method, routes in the right direction, reason phrase, credentials), take fresh identifiers only where new ones are due, and never modify their inputs. A response matches a request exactly when CSeq number, method, and the host, port (5060 being the default) and branch of its last Via agree; an ACK matches a message exactly when method, CSeq number and the host and port of its last Via agree.",
["inputs"],"all combinations of the explored field alphabets (equal/different/missing in each compared field, list lengths 0..3)",
"The builders and matchers have no tests.",
["dialog/messages.go","sip/via.go","sip/addr.go","sip/status.go"],[("builders and matchers","dialog/messages.go"),("comparisons","sip/via.go")],["NewRequest, NewResponse, NewAck, NewCancel, NewBye, ResponseMatch, AckMatch"])

p("C30","Identifiers are well-formed and carry all their randomness",
"Tags are 12 lower-case hex digits, branches are the magic cookie z9hG4bK- plus such a tag, Call-IDs are version-4-shaped UUIDs, CSeq numbers lie in 0..49999 and origin IDs are decimal below 2^32; each is a function of the random bytes drawn in which every bit counts, so different random draws give different tags, branches and Call-IDs. The network-error predicates recognise refusals and closed sockets in the forms the system reports them, and nothing else.",
["inputs"],"all single-bit and single-byte values in every random byte position, all pairs of positions in the explored alphabet, all error shapes of the explored alphabet",
"The util package has no tests.",
["util/util.go"],[("generators","util/util.go Generate*"),("predicates","util/util.go IsRefused, IsUseOfClosed, IsIPv6, Portstr")],["returned strings and numbers"],None,"none (random source replaced through crypto/rand's own variable)")

p("C31","Things running side by side never disturb one another",
"Any number of calls, transports, media sessions, parsers and generators may be in use at once from different tasks, one transport may be used for sending by several tasks, and one message or session description may be printed, copied, inspected and built from by several; each behaves exactly as if it were alone, whether or not they talk to the same other side. What one received or was handed stays what it was, whatever the others do afterwards. No two tasks touch memory without synchronisation when the application itself gives them nothing in common to change.",
["schedules","histories"],"every ordered pair of the explored activities, every schedule of the two with up to the stated number of changes of turn at network operations, and every ordered pair of single operations with no order between them at all",
"The tests run one thing at a time; shared scratch memory or an unlocked cache shows only when two tasks meet in it.",
["dialog/transport.go","dialog/dialog.go","dialog/receiver.go","rtp/session.go","sip/msg.go","sip/msg_parse.go","dsp/awgn.go","util/util.go"],[("per-object state and buffers","dialog/transport.go Transport.Send; dialog/receiver.go ReceiveMessages; dialog/dialog.go dialogState; rtp/session.go Session, receiver"),("printing and copying without writing","sip/msg.go Append, Copy; sdp/sdp.go Append"),("package state","sip/status.go phrases; rtp/session.go dtmfCodes; dsp/awgn.go")],["datagrams sent, messages and frames received, states, errors, printed text","reports of a happens-before race monitor"],None,"none (network and random numbers replaced at build time; race monitor of the Go toolchain)")

p("C32","A call over a faulty network ends alike on both sides",
"Whatever datagrams of a call get lost, doubled or held up, while there are no more of them than retransmission makes up for and the other side follows the protocol, the call comes to an end and both sides agree on it: one call was rung, answered, declined, given up or ended, after the answer nothing but the end is reported, there is exactly one end, and it is an error exactly when the call failed. The same holds on every route a call may take - direct, through recording and plain proxies, through redirection, over several addresses of which some are dead, behind an address translator - and at whatever moment the caller hangs up, including while an answer, a ringing, a decline or the callee's own BYE is under way. The media address last reported is the one the callee gave last, and after the end nothing more is sent and nothing is left open or running.",
["histories","schedules","fault_sequences"],"all fates (delivered, lost, doubled, held up) of all datagrams within a number of faults per call, all moments of hanging up on a grid, all explored calls and routes",
"The tests hold one call over a perfect network; which retransmission meets which state depends on exactly which datagram gets lost and when, and both sides have to be watched to the end.",
["dialog/dialog.go","dialog/messages.go","dialog/receiver.go","dialog/route.go","dialog/transport.go"],[("retransmission of INVITE and BYE, time-outs","dialog/dialog.go resendInvite, resendBye, dialogState.run"),("answers, cancelling and hanging up","dialog/dialog.go handleResponse, handleRequest, handleHangup"),("matching","dialog/messages.go AckMatch, ResponseMatch, NewAck, NewCancel, NewBye, NewResponse"),("failing over and redirection","dialog/dialog.go dial, handleResponse; dialog/route.go RouteAddress")],["states, errors and media addresses reported to the application","what the other side was rung, answered and told","datagrams on the network, sockets and tasks left over"],None,"none (network replaced at build time)")

p("C33","Messages find their way through any chain of proxies and back",
"A request for a route visits the loose and strict routers of its route set in order, each once, and arrives at its target naming the target and with no routing left over for it; every transport on the way counts one hop and nothing but routing is changed. Each response goes back over the same transports to exactly the socket the request came from, also through an address translator, with each transport taking off its own Via only, and an ACK, a CANCEL, a re-INVITE and a BYE built by either end find and match the other end over the recorded route. No length, mixture, port or addressing of the proxies on the way makes a difference.",
["inputs","histories"],"all chains of the explored proxies up to the explored length, times ends, ports and kinds of request",
"The tests route one message at a time by hand; the rules for recording, rewriting and stripping have to cooperate over several hops and both directions.",
["dialog/transport.go","dialog/receiver.go","dialog/route.go","dialog/messages.go","sip/via.go","sip/addr.go"],[("Via and Record-Route handling per hop","dialog/transport.go Send; dialog/receiver.go ReceiveMessages, fixMessagesFromStrictRouters, addReceived, addTimestamp"),("next hop","dialog/route.go RouteMessage"),("in-dialog requests and responses","dialog/messages.go NewAck, NewBye, NewResponse, ResponseMatch, AckMatch")],["what each transport receives","where each datagram is sent"],None,"none (network replaced at build time)")

p("C34","Looking things up in a message and comparing its parts is exact",
"Looking up a parameter, URI parameter, URI header or extension header by name finds the first entry of exactly that name, whatever its case, wherever it is in the list, and nothing when there is none; neither this nor any comparison needs what is compared to be there, or changes it. Two hosts with ports are the same exactly when the host and the port, the scheme's own where none is given, are; two Vias belong to the same transaction exactly when both name a branch and it is the same. Giving an address a tag or a Via a branch keeps everything else, and the new one is the one found.",
["inputs"],"all lists of entries up to the explored length over names alike but for case or length, all ordered pairs of Vias, addresses and URIs over the explored hosts, ports, schemes and branches",
"The tests look nothing up beyond a first entry and compare nothing absent; matching of calls and routes rests on these everywhere.",
["sip/param.go","sip/uriparam.go","sip/uriheader.go","sip/xheader.go","sip/via.go","sip/addr.go","sip/uri.go"],[("look-up","Get in sip/param.go, sip/uriparam.go, sip/uriheader.go, sip/xheader.go"),("comparison","sip/via.go CompareBranch, CompareHostPort; sip/uri.go CompareHostPort, GetPort; sip/addr.go CompareHostPort")],["returned entries and verdicts"])

p("C35","What is said at one end of a call is heard at the other",
"Whatever two media sessions in conversation do - audio, silence with noise, digits, being put on hold, turning to another address, the numbers wrapping - and whichever of their datagrams get lost, doubled or overtaken, each end hears exactly the audio that arrives, as its mu-law decoding in order of arrival, and nothing else. From the packets that arrive, any listener that goes by the standard alone can tell the order and place in time of everything said, every digit typed as long as one of its packets gets there, apart from the digit before it, and its release as long as one of the last three does. In a call the caller knows from the answer on where to speak, speaks to each new place of the callee's as soon as the callee knows it is known, and nothing said by either is missed while the media itself gets through, however the signalling fares.",
["histories","fault_sequences"],"all conversations of up to the explored number of acts with every fate of every datagram within the number of faults; every subset of the packets of two digits; all explored calls with every fate of the datagrams of their signalling",
"No test sends a packet from one session to another; what a listener can still tell depends on exactly which packets are missing.",
["rtp/session.go","rtp/rtp.go","rtp/dtmf.go","dialog/dialog.go"],[("sending","rtp/session.go Send, SendRaw, SendDTMF"),("receiving","rtp/session.go receiver"),("where to speak","dialog/dialog.go checkSDP")],["frames heard","RTP packets on the network","media addresses reported"],None,"none (network replaced at build time)")

p("C36","Diagnostics are truthful and change nothing but the timestamps they add",
"Turning on message tracing, timestamps, or both changes nothing else: every call and transport sends the same datagrams to the same places at the same moments, delivers the same messages and reports the same to the application as with them off, and what a transport keeps is unaffected. With tracing on, each datagram sent and each one received, well-formed or not, is logged once, byte for byte, with the other side's address, and without it none is. With timestamps on, the first Via of every message that leaves and of every message delivered names the moment it left or came in microseconds since the epoch, and no other Via is touched.",
["histories","fault_sequences","configurations"],"all explored worlds (calls with one fault anywhere, hang-ups at every moment, chains of proxies, pairs of datagrams, sequences of messages sent), times tracing, timestamps or both",
"The tests turn diagnostics on nowhere; what they touch is shared with messages that are kept, matched, resent and answered.",
["dialog/trace.go","dialog/receiver.go","dialog/transport.go","dialog/dialog.go"],[("timestamps","dialog/receiver.go addTimestamp"),("tracing","dialog/trace.go trace"),("where they are turned on","dialog/transport.go Send, dialog/dialog.go send, dialog/receiver.go ReceiveMessages")],["datagrams, times, messages delivered, reports and log lines, with and without diagnostics"],None,"none (network replaced at build time)")

ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1; assert n<=3,(x["id"],n)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
