package main

type prop struct {
	id, area, level, technique, note, rule string
	assume                                 []string
	race                                   bool // also built with the race monitor
}

const sipNote = "Exhaustive within the stated alphabets and depths, which are not all inputs. Inputs beyond them (longer words over a state's symbols, deeper combinations of constructs) are covered only through the transition cover."

const dlgNote = "Exhaustive over the stated event alphabets and depths at the granularity of quiescent steps: each event is delivered when the call has finished reacting to the one before, except in the suite burst, where several things wait at once and are taken in every order."

var dlgAssume = []string{"the application reads its channels and does not change its INVITE while the call lasts", "both timers going off at the same instant, a re-INVITE left unacknowledged while addresses remain, and a request of another call with another SIP version are left open"}

var props = []prop{
	{id: "C01", area: "sip", level: "exploration", technique: "exhaustive enumeration of inputs (all short strings, every grammar state x every byte, every single-byte damage, all fragment sequences) run through the real parsers", note: sipNote, rule: "an input counts as distinct by its index in the enumeration (start state and byte, damaged position, sequence of lines)"},
	{id: "C02", area: "sip", level: "model_checking", technique: "explicit-state: every state and transition of a frozen reference state machine of the grammar, replayed against the parser, plus exhaustive structured inputs compared with independently built messages", note: sipNote,
		assume: []string{"the frozen machine (from the grammar as first found, with the repairs listed in known_findings.txt) and its reference actions say what the supported grammar is", "the addresses forms recorded as known findings are don't-cares elsewhere in the check"}},
	{id: "C03", area: "sip", level: "model_checking", technique: "explicit-state: every state of a frozen reference state machine of the URI grammar x every two bytes, replayed against the parser, plus all combinations of hand-written components", note: sipNote,
		assume: []string{"the frozen machine, from the grammar as first found, says what the supported grammar is"}},
	{id: "C04", area: "sip", level: "exploration", technique: "exhaustive enumeration of message values (all pairs of field settings, all short lists, all numbers), each written, parsed back and compared with a reference normal form", note: sipNote, rule: "a message counts as distinct by the text it is written as",
		assume: []string{"a well-formed message has From, To, Call-ID, CSeq with method and, in a request, a request URI; text fields are UTF-8 without leading blanks and with folds only"}},
	{id: "C05", area: "sip", level: "exploration", technique: "exhaustive enumeration of byte strings in every escapable component, written and parsed back by the real code", note: sipNote, rule: "a URI counts as distinct by the text it is written as"},
	{id: "C06", area: "sip", level: "exploration", technique: "exhaustive enumeration of byte strings in every text field, written by the real code, split by an independent line splitter and parsed back", note: sipNote, rule: "a message counts as distinct by the text it is written as",
		assume: []string{"a parameter name needs at least one token byte, a reason phrase valid UTF-8, for the message to be readable; the line structure is required always"}},
	{id: "C07", area: "sip", level: "exploration", technique: "exhaustive enumeration of value shapes x every single mutation reachable by reflection on either side of a copy; all pairs of reading operations", note: "Exhaustive for list lengths up to 3 in each dimension and single (and all-at-once) mutations. Payload contents and the source address are outside the property.", rule: "a case counts as distinct by shape, side and changed field"},
	{id: "C34", area: "sip", level: "exploration", technique: "exhaustive enumeration of lists and pairs over alphabets of names, hosts, ports and branches that are alike but for one thing, each looked up or compared by the real code and by a reference", note: "Exhaustive for the stated alphabets and list lengths.", rule: "a list or pair counts as distinct by its content",
		assume: []string{"hosts and branches are compared as written; whether ones that differ in case only are the same is left open"}},
	{id: "C08", area: "sdp", level: "exploration", technique: "exhaustive enumeration of descriptions (all words of lines, symbols and damaged bytes), each parsed by the real code and compared with a reference reading", note: "Exhaustive for the stated line and symbol alphabets and word lengths; longer descriptions only through insertion into a complete one.", rule: "a description counts as distinct by what the reference says it means, refusals by their reason",
		assume: []string{"lines without a value, or without '=', are ignored; numbers with a sign are left open; a payload type listed in both sections takes its own section's mapping"}},
	{id: "C09", area: "sdp", level: "exploration", technique: "exhaustive enumeration of description values (all combinations of fields, all short lists), each written by the real code, parsed back and compared", note: "Exhaustive for the stated field values and list lengths.", rule: "a value counts as distinct by its normal form",
		assume: []string{"a well-formed description has a codec in every media, one mapping per payload type and media, codec names without blank and slash, no line breaks, no empty lines and at most one direction"}},
	{id: "C10", area: "rtp", level: "exploration", technique: "exhaustive enumeration of header values and bytes (every two bytes together), written and read by the real code against an independent wire layout", note: "Exhaustive over every pair of header bytes on three backgrounds, not over all 2^96 headers.", rule: "a case counts as distinct by the two bytes enumerated and the direction"},
	{id: "C11", area: "rtp", level: "exploration", technique: "exhaustive exploration of all operation sequences up to a depth on the real session, over an in-memory socket whose every write may fail", note: "Exhaustive to the stated depth and alphabet; long runs only for single operations.", rule: "a packet counts as distinct by header, payload and destination"},
	{id: "C12", area: "rtp", level: "exploration", technique: "exhaustive enumeration of characters and events, and of all digit sequences and failing writes up to a depth on the real session", note: "Exhaustive to the stated depth.", rule: "an event counts as distinct by the packets sent"},
	{id: "C13", area: "rtp", level: "exploration", technique: "stateless exploration of all histories of arrivals, application steps, failures and closing up to a depth on the real receiving task, with a virtual clock and quiescence detection", note: "Exhaustive to the stated depth at the granularity of quiescent steps; the channels being unbuffered, the tasks take turns.", rule: "a delivery counts as distinct by its samples",
		assume: []string{"the application hands back every frame it took before it waits for Close, and uses CloseAfterError only after the socket failed"}},
	{id: "C14", area: "rtp", level: "exploration", technique: "exhaustive enumeration of random draws and of all bind outcomes on the real code over an in-memory network", note: "Every residue of the draw and every number of conflicts is covered; draws are enumerated in 16-bit windows.", rule: "a case counts as distinct by host, outcomes and attempts"},
	{id: "C15", area: "dsp", level: "exploration", technique: "exhaustive enumeration of all samples and all bytes on the real code against the decision and output values of G.711", note: "Complete for 16-bit samples; beyond that range saturation is checked for all magnitudes to 2^20 and around powers of two.", rule: "a sample counts as distinct with its code"},
	{id: "C16", area: "dsp", level: "exploration", technique: "exhaustive enumeration of all pairs of samples, all alignments and positions, and all short sequences of mixes on the real code", note: "Complete for pairs of samples; neighbouring lanes vary over extreme values only.", rule: "a case counts as distinct by destination value, place or final contents"},
	{id: "C17", area: "dsp", level: "exploration", technique: "exhaustive enumeration of all seed classes, all levels on a grid, and all interleavings of generators up to a depth, compared sample by sample with a reference generator", note: "Complete for seeds (they only count modulo 259200) at three levels; lengths are bounded.", rule: "a case counts as distinct by seed class, level or sequence of steps",
		assume: []string{"seeds for which the seed arithmetic leaves 64 bits must only work and repeat"}},
	{id: "C30", area: "util", level: "exploration", technique: "exhaustive enumeration of random draws (every two bytes together) with the random source under the explorer's control; all error numbers and shapes", note: "Complete for pairs of random bytes on two backgrounds, not for all draws.", rule: "an identifier counts as distinct by its text, an error by its shape"},
	{id: "C22", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (termination, channels, sockets and tasks)", note: dlgNote,
		assume: dlgAssume},
	{id: "C23", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (the states and errors reported)", note: dlgNote,
		assume: dlgAssume},
	{id: "C24", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (INVITEs and BYEs with their virtual times)", note: dlgNote,
		assume: dlgAssume},
	{id: "C25", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (ACKs sent)", note: dlgNote,
		assume: dlgAssume},
	{id: "C26", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (CANCELs, BYEs and the hang-up report)", note: dlgNote,
		assume: dlgAssume},
	{id: "C27", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (responses sent with their virtual times)", note: dlgNote,
		assume: dlgAssume},
	{id: "C28", area: "dlg", level: "model_checking", technique: "stateless model checking of the real call code: all event histories up to a depth under a virtual clock, an in-memory network and a controlled choice among ready events, every step compared with an executable reference model (peers reported and the INVITE's body)", note: dlgNote,
		assume: dlgAssume},
	{id: "C18", area: "tp", level: "exploration", technique: "exhaustive enumeration of messages (all Route and Via lists up to a length over all kinds of entries, every port number) routed by the real code and compared with an independent statement of the routing rules", note: "Exhaustive for the stated kinds of entries and list lengths.", rule: "a case counts as distinct by next hop and resulting message",
		assume: []string{"a list whose first two entries are both our own, and lists in a response's Route, are left open; an rport of 0 means none"}},
	{id: "C21", area: "tp", level: "exploration", technique: "exhaustive enumeration of destinations and of every answer of the name service up to a length, with the name service under the explorer's control", note: "Exhaustive for the stated hosts, ports and answers; every port number for three kinds of hosts.", rule: "a case counts as distinct by the addresses it has to give",
		assume: []string{"service records together with an error, and records with port 0, are left open"}},
	{id: "C29", area: "tp", level: "exploration", technique: "exhaustive enumeration of messages and pairs of messages over field alphabets, built and matched by the real code and compared with independently built messages", note: "Exhaustive for the stated alphabets and list lengths.", rule: "a built message counts as distinct by its text, a pair to be matched by its kinds",
		assume: []string{"the ACK of a success may keep the INVITE's branch or take a fresh one; a CANCEL of a request with several Vias may carry one or all; a sender given to NewRequest has no tag yet"}},
	{id: "C19", area: "tp", level: "model_checking", technique: "explicit exploration of all sequences of sends up to a depth over one real transport on an in-memory network, including failures, against a reference transport; all subsets of absent fields", note: "Exhaustive for the stated messages and depth.", rule: "a send counts as distinct by message, outcome and destination",
		assume: []string{"From may take over display name and parameters of our own address; a message sent again keeps the identifiers it got"}},
	{id: "C20", area: "tp", level: "model_checking", technique: "explicit exploration of all sequences of datagrams up to a depth through the real receiving task on an in-memory network, read at once or late, against a reference receiver", note: "Exhaustive for the stated datagrams and depth; every source port and every size up to 2.5 kB.",
		assume: []string{"an rport or received the sender already gave a value is kept; whether the default port is recorded, and the order of the added parameters, are left open; a list starting with two of our own entries, and a Route in a response, are left open"}},
	{id: "C31", area: "par", race: true, level: "model_checking", technique: "stateless model checking: every schedule of two real activities with up to two (thorough: three) changes of turn at network operations, each compared with the activity alone; every ordered pair of operations under a happens-before race monitor, cold", note: "Exhaustive over the stated activities, changes of turn at network operations and pairs of operations. Changes of turn between network operations are left to the race monitor, which reports unsynchronised access whatever the actual order.",
		assume: []string{"one call, session, generator or message under construction is used by one task at a time", "a race whose two accesses are always ordered by a lock of the standard library (as of the log) around them is not seen"}},
	{id: "C32", area: "e2e", level: "model_checking", technique: "stateless model checking of whole calls: the real calling side against a callee, proxies and redirecting servers built on the real transport, over an in-memory network in virtual time, every fate of every datagram (delivered, lost, doubled, held up) within a number of faults, and every moment of hanging up on a grid", note: "Exhaustive over the stated calls, faults and moments.", rule: "an outcome counts as distinct by call, reports, number of datagrams and moment of ending",
		assume: []string{"the callee remembers its transactions and retransmits as the protocol has it; the number of faults is at most the retransmission limit; a CANCEL that gets lost is made up for by a BYE once the callee answers"}},
	{id: "C33", area: "e2e", level: "model_checking", technique: "exhaustive exploration of paths: every chain of proxies up to a length, every proxy of every kind, built on the real transport, receiver, routing and builders, with requests and responses followed hop by hop in both directions", note: "Exhaustive over the stated chains; hosts are named by address.", rule: "a path counts as distinct by its ends, proxies and ports",
		assume: []string{"proxies are named by the address they are bound to; strict routers are the harness's own; behind a translator the far end sends no requests"}},
	{id: "C35", area: "e2e", level: "model_checking", technique: "stateless model checking of conversations: two real media sessions (and whole real calls with media) on an in-memory network in virtual time, every sequence of acts up to a depth with every fate of every datagram within a number of faults, judged by what a listener of another make can tell from what arrives", note: "Exhaustive over the stated acts, depths, faults and calls.", rule: "a conversation counts as distinct by acts and fates, a call by what was said and heard",
		assume: []string{"a session's peer is what the call reported last; the callee listens wherever it has said it does"}},
	{id: "C36", area: "e2e", level: "model_checking", technique: "differential stateless model checking: every explored world (calls with faults, hang-ups at every moment, chains of proxies, datagrams of all kinds, messages sent) is run with the diagnostics off and on, and everything to be seen from outside compared, on the real code in virtual time", note: "Exhaustive over the stated worlds.", rule: "a world counts as distinct by everything seen of it from outside",
		assume: []string{"diagnostics are turned on before anything starts"}},
}
