#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","Rateless IBLT reconciliation reports exactly the set difference",
 "Let one party encode set A and the other decode against set B. After any number of coded symbols, the symbols reported as remote are distinct members of A\\B with their contents and hashes intact, and those reported as local are distinct members of B\\A. As soon as at least one coded symbol was received and decoding is reported complete, they are exactly A\\B and exactly B\\A.",
 ["inputs","histories"],"for all pairs of sets, all symbol hashes, all prefixes of the coded stream and all interleavings of receiving and decoding",
 "The one riblt test uses a single 5000/5000/10000 instance and only checks that nothing is missing at the end; it never checks that nothing wrong was reported, nor any prefix, nor empty or one-sided differences.",
 ["riblt/decoder.go","riblt/encoder.go","riblt/symbol.go"],
 [("TryDecode purity test and peel","riblt/decoder.go TryDecode"),("applyNewSymbol","riblt/decoder.go"),("applyWindow","riblt/encoder.go")],
 [("cs","received coded symbols after peeling","riblt/decoder.go"),("local/remote","recovered symbols","riblt/decoder.go")],
 ["Decoder.Remote","Decoder.Local","Decoder.Decoded"])
p("C02","Rateless IBLT decoding is complete, schedule-independent and rateless",
 "After a decode attempt the recovered symbols are exactly those that peeling can reach from the coded symbols received so far, no matter how receiving and decode attempts were interleaved. Decoding is reported complete exactly when every received coded symbol is fully explained by the recovered symbols. A difference of d symbols is completely decoded after a number of coded symbols proportional to d, independently of how much the sets have in common.",
 ["inputs","histories","schedules"],"for all pairs of sets and all interleavings of receive and decode-attempt steps",
 "The test attempts to decode after every coded symbol, so batch decoding, decode attempts at other points, and premature or stuck completion flags are never reached; a slow decoder still passes.",
 ["riblt/decoder.go"],
 [("dirty queue","riblt/decoder.go AddCodedSymbol, applyNewSymbol, TryDecode"),("pending counter","riblt/decoder.go")],
 [("pending","coded symbols not yet explained","riblt/decoder.go")],["Decoder.TryDecode","Decoder.Decoded"])
p("C03","Coded symbol stream is a pure, linear function of the encoded set",
 "The i-th coded symbol of a set is the combination (sum, count, checksum) of the per-symbol contributions at index i, whatever order the symbols were added in and whether or not their hashes were precomputed. A sketch of length m equals the first m coded symbols of the stream of the same set. Consequently two parties with equal sets always produce equal streams.",
 ["inputs","histories"],"for all sets, insertion orders, stream lengths and symbol hashes",
 "The test never inspects a coded symbol and never compares two encoders, an encoder and a sketch, or different insertion orders.",
 ["riblt/encoder.go","riblt/sketch.go","riblt/symbol.go","riblt/random.go"],
 [("mapping heap","riblt/encoder.go fixHead/fixTail/applyWindow"),("Sketch.AddHashedSymbol","riblt/sketch.go"),("CodedSymbol.apply","riblt/symbol.go")],
 None,["Encoder.ProduceNextCodedSymbol","Sketch"])
p("C04","Subtracting and decoding sketches is sound and honestly flagged",
 "Subtracting the sketch of B from the sketch of A gives, in every cell, the difference of the two and leaves the sketch of B unchanged; it works for every symbol representation and for sketches of empty sets, and refuses sketches of different length. Decoding the result reports only symbols of A\\B as remote and of B\\A as local, everything that peeling can reach. For non-empty sketches it claims success exactly when the whole difference was recovered.",
 ["inputs","configurations"],"for all pairs of sets, sketch lengths (including too short ones) and symbol representations (values and pointers)",
 "No test touches sketches at all.",
 ["riblt/sketch.go","riblt/decoder.go"],
 [("Subtract","riblt/sketch.go"),("Decode","riblt/sketch.go")],None,["Sketch.Subtract","Sketch.Decode"])
p("C05","Every 64-bit hash yields a strictly increasing, correctly dense index sequence",
 "For every 64-bit symbol hash a symbol contributes to coded symbol 0 and then to a strictly increasing sequence of later coded symbols, and producing or consuming any coded symbol always terminates without a crash. Over random symbols the share that contributes to coded symbol i is close to 1/(1+i/2).",
 ["inputs"],"for all 2^64 hashes, in particular the extreme ones, and all stream positions",
 "The test uses one set of 20000 random hashes; the failing hashes (0, multiples that hit the extremes of the generator) have probability below 2^-50 in a random sample.",
 ["riblt/random.go","riblt/encoder.go","riblt/sketch.go","riblt/decoder.go"],
 [("nextIndex","riblt/random.go")],[("lastIdx","last mapped index","riblt/random.go")],["coded symbols produced by a one-symbol set"])
p("C06","A reset encoder or decoder is indistinguishable from a new one",
 "After a reset of a rateless-IBLT encoder or decoder, at any point of its life, every later output equals what a freshly created one would give for the same later inputs. Nothing of the earlier set, stream position, received or recovered symbols, or completion status leaks through.",
 ["histories"],"for all operation histories before and after the reset, including resets halfway through decoding and repeated resets",
 "The functional test never resets; a benchmark resets an encoder but checks nothing.",
 ["riblt/encoder.go","riblt/decoder.go"],
 [("codingWindow.reset","riblt/encoder.go"),("Decoder.Reset","riblt/decoder.go")],None,["Encoder.Reset","Decoder.Reset"])
p("C07","LT coding window holds exactly the most recent distinct transactions",
 "At any time the coding window of an LT encoder (in each of the three LT implementations) consists of the most recently added transactions in first-in-first-out order, with no two of the same salted hash and never more than the configured window size. Adding reports true exactly when the transaction was not in the window and is then accepted; a transaction evicted earlier can enter again. Resetting (where offered) installs the new window size and degree distribution and empties the window.",
 ["histories","configurations"],"for all sequences of additions, duplicates, resets and window sizes, including transactions whose salted hashes collide",
 "Tests add at most a handful of transactions past a single eviction; re-entry after eviction, long histories, salted hash collisions and resets after use are not sampled.",
 ["lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],
 [("AddTransaction eviction","lt/encoder.go, iblt/encoder.go, ldpc/encoder.go"),("Reset","lt/encoder.go, iblt/encoder.go")],
 [("window","FIFO window","lt/encoder.go"),("hasher map","salted hashes in window","lt/encoder.go")],["Encoder.AddTransaction","Encoder.ProduceCodeword"])
p("C08","LT codewords are exact combinations of distinct window transactions",
 "Every codeword covers exactly min(drawn degree, window population) distinct transactions of the current window, its symbol is exactly the combination of the data of those transactions, and its member list names exactly their salted hashes. Producing codewords does not change the window, and every transaction in the window can be selected.",
 ["inputs","histories","configurations"],"for all windows, degree draws and random choices",
 "The tests look at codewords of one degree over one freshly filled window.",
 ["lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],
 [("ProduceCodeword","lt/encoder.go, iblt/encoder.go, ldpc/encoder.go")],None,["Encoder.ProduceCodeword"])
p("C09","LT decoder releases only true transactions, each once, and then knows them",
 "Whatever order codewords and locally learned transactions arrive in, every transaction an LT decoder releases is one that was encoded into a received codeword, with its exact content. No transaction is released twice or released when already known, and every transaction released or learned locally is reported as known from then on and is available for peeling.",
 ["schedules","histories"],"for all orders of codewords and local transactions (memory large enough), including duplicated codewords",
 "Tests use one happy-path stream and one hand-made two-codeword example; cascades, duplicates and locally learned transactions in the middle of a cascade are not explored.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("peeling","lt/decoder.go AddCodeword, AddTransaction, peelTransaction, tryDecode"),("receivedTransactions","lt/decoder.go")],None,
 ["Decoder.AddCodeword","Decoder.AddTransaction","Decoder.NumTransactionsReceived"])
p("C10","LT decoding reaches the peeling closure and codeword status is truthful",
 "After every operation no pending codeword is left with at most one unknown member: everything peeling can derive has been released by that very operation. A codeword is reported decoded exactly when all its transactions are known, at once for one that brings nothing new, and its status is final.",
 ["schedules","histories"],"for all orders of codewords and local transactions",
 "Tests check the status of at most two codewords in one order each.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("pending codewords queue","lt/decoder.go"),("PendingCodeword.Decoded","lt/decoder.go")],None,["PendingCodeword.Decoded","Decoder return values"])
p("C11","LT decoder remembers exactly its configured number of recent transactions",
 "An LT decoder with memory size n remembers the n most recently learned transactions and no others: older ones are forgotten in the order they were learned, may then be learned and released again, and can no longer peel codewords. Memory never exceeds n, however long the decoder runs, and codewords that arrived before a member was forgotten still complete.",
 ["histories","configurations"],"for all memory sizes and arrival histories without salted-hash collisions",
 "No test makes a decoder exceed its memory.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("eviction","lt/decoder.go storeNewTransaction")],[("transactionId/timeout queue","learn order","lt/decoder.go")],["Decoder"])
p("C12","Hash collisions and malformed codewords never crash or corrupt an LT decoder",
 "Transactions whose salted hashes collide, and codewords that contradict what is already known, never crash the decoder and never make it release anything that is not the content of a codeword it received minus known transactions whose hash matches the announced member. Codewords that do not involve the colliding hashes decode exactly as if the bad ones had never arrived.",
 ["inputs","fault_sequences"],"for all collision patterns and all adversarial mixes of inconsistent codewords",
 "The existing conflict test builds one colliding codeword; collisions deep inside cascades or with already known transactions are not reached.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("failToDecode","lt/decoder.go"),("verification of decoded hash","lt/decoder.go tryDecode")],None,["Decoder.AddCodeword"])
p("C13","Recycling finished codewords never disturbs others and expiry is truthful",
 "Freeing codeword handles in the pooled LT decoder, at any time and in any order, never changes what other codewords, decoders or already released transactions contain or decode to. A transaction released by a codeword whose handle was freed before it completed is marked expired; one released by a codeword still held is not.",
 ["schedules","histories"],"for all interleavings of freeing, new codewords, local transactions and several decoders sharing the pools",
 "The ldpc tests do not even compile at this commit.",
 ["ldpc/decoder.go","ldpc/encoder.go","ldpc/transaction.go"],
 [("sync.Pool recycling","ldpc/decoder.go"),("Expired flag","ldpc/decoder.go")],None,["PendingCodeword.Free","DecodedTransaction"])
p("C14","Simulated messages are delivered exactly once, on time and in order",
 "The discrete-event simulator delivers every scheduled message exactly once, to its destination and from its sender, at exactly its scheduled arrival time, in order of arrival time and, among equal times, in the order they were scheduled. Simulated time never goes backwards, and delivered plus queued messages always equal scheduled ones.",
 ["schedules","inputs"],"for all module graphs, delays (including zero and equal ones) and handler behaviours that schedule further messages",
 "The simulator has no tests.",
 ["des/simulator.go"],
 [("message heap ordered by (arrival, seq)","des/simulator.go"),("deliver","des/simulator.go")],
 [("mq","pending messages","des/simulator.go")],["Module.HandleMessage","Simulator.Time","Simulator.EventsQueued","Simulator.EventsDelivered"])
p("C15","Running the simulator to a horizon delivers nothing later than the horizon",
 "Running the simulator until time t delivers exactly the messages due at or before t and none due later, leaves the clock at or before t, and can be continued. Cutting a run into any number of horizons gives the same deliveries as running to the last one at once.",
 ["schedules","configurations"],"for all horizons, including ones falling between, on, before and after all events, and on an empty queue",
 "The simulator has no tests.",
 ["des/simulator.go"],[("RunUntil","des/simulator.go"),("Run","des/simulator.go")],None,["Simulator.RunUntil","Simulator.Run"])
p("C16","Coded gossip delivers every transaction to every node exactly once",
 "In the rateless-IBLT network simulation no node receives a transaction that nobody generated or processes the same transaction twice. Whenever every node of a connected topology has generated traffic and links keep running, every transaction eventually reaches every node, whatever the (positive) link delays.",
 ["schedules","configurations"],"for all connected topologies, link delays, generation times and delivery interleavings that keep each link in order",
 "The network simulation has no tests.",
 ["newsim/coding.go","newsim/module.go","newsim/types.go","newsim/topology.go"],
 [("server.HandleMessage","newsim/module.go"),("receiver.onCodeword","newsim/coding.go"),("sender.onAck","newsim/coding.go")],None,
 ["messages between servers","latency/receive records"])
p("C17","Coded links stay block-synchronised, bounded and never stall",
 "On every coded link the receiver combines only coded symbols of one block and shard, acknowledges every coded symbol of the block in progress exactly once, and finishes a block only when its difference is completely recovered; the sender starts a block with every transaction it holds for that shard range and keeps what arrives meanwhile for later blocks. Shards partition the hash space, unacknowledged coded symbols exceed the send window only by the burst that opens a block, and an active link always has something in flight.",
 ["schedules","configurations"],"for all delivery interleavings, window growth factors, shard counts and arrival patterns",
 "The network simulation has no tests.",
 ["newsim/coding.go","newsim/messages.go"],
 [("block handshake","newsim/coding.go"),("send window","newsim/coding.go"),("shard schedule","newsim/coding.go")],
 [("inFlight/sendWindow/buffer","sender state","newsim/coding.go")],["codeword, ack messages"],"read-only accessors for link state (build tag verif)")
p("C18","Pull gossip requests only what it needs and delivers everything everywhere",
 "With announce/request/response gossip a node requests a transaction only from a peer that announced it, from each peer at most once and never once it holds it (an initial flood aside); it answers every request for a transaction it announced with that very transaction, processes each transaction once and announces it to its other peers, so that in every connected topology every transaction reaches every node.",
 ["schedules","configurations"],"for all connected topologies and delivery interleavings",
 "The network simulation has no tests.",
 ["newsim/pull.go","newsim/module.go"],[("pull handlers","newsim/pull.go")],None,["announce/request/response messages"])
p("C19","LT simulator links keep flow control tight, truthful and live",
 "On an LT-coded simulator link every codeword is acknowledged exactly once, the number of codewords in flight equals sent minus acknowledged and is kept at the send window while a block is being sent, and the send window is never zero. A block starts as soon as enough transactions wait and the previous block has ended (with synchronised blocks: at the next tick). A receiver acknowledges the end of a block exactly when enough codewords of that block arrived and few enough of them remain undecoded, and every block ends.",
 ["schedules","configurations"],"for all positive thresholds, overheads not above the threshold, block sizes, delivery interleavings and codeword contents, with a decoder memory that holds every transaction",
 "The simulator has no tests.",
 ["simulator/node.go","simulator/module.go","simulator/messages.go"],
 [("sender/receiver block logic","simulator/node.go")],None,["codeword and ack messages"],"read-only accessors for link state (build tag verif)")
p("C20","LT simulator nodes forward every new transaction to every peer exactly once",
 "A simulated node hands each transaction that it generates or decodes to the sender of every one of its links exactly once and to its receivers' decoder once. With forwarding rate limiting, transactions leave in arrival order, none is lost or duplicated, successive forwards are at least the configured interval apart, and none is delayed further than that.",
 ["schedules","configurations"],"for all topologies, rate limits, burst patterns and interleavings",
 "The simulator has no tests.",
 ["simulator/module.go","simulator/node.go","simulator/filter.go"],
 [("server forward queue","simulator/module.go"),("forwardTransaction","simulator/module.go")],None,["server outputs, encoder window"],"read-only accessors (build tag verif)")
p("C21","The network node's codeword rate controller accounts for every loss exactly",
 "For every peer, the sender raises its codeword rate by the configured increment for every loss reported to it, exactly once per reported unit, lowers it by the configured decrement per codeword sent, and never goes below the minimum rate. A receiver reports as its own loss each received codeword that is still undecoded when it is retired (at the first codeword received after the decoding timeout) exactly once, no codeword that was decoded by then, and forwards peer-reported losses unchanged.",
 ["schedules","configurations","fault_sequences"],"for all timings of codewords, losses and channel back-pressure",
 "The node package has no tests.",
 ["node/sender.go","node/receiver.go"],
 [("sender.loop","node/sender.go"),("receiver.decode","node/receiver.go")],None,["codewords written by the sender, loss channels"])
p("C22","The network node fans transactions out to every peer and never deadlocks",
 "Every transaction generated locally or decoded fresh from a peer is offered to the encoder and the decoder of every peer; a transaction that was only decoded after its codeword expired is offered to decoders only. No pattern of concurrent traffic, bursts or decoding cascades leaves the node's goroutines waiting for each other forever.",
 ["schedules","histories"],"for all interleavings of controller, sender and receiver goroutines, queue capacities and cascade sizes",
 "The node package has no tests.",
 ["node/controller.go","node/receiver.go","node/sender.go"],
 [("controller.loop","node/controller.go"),("receiver.decode","node/receiver.go")],None,["channels between goroutines"])
p("C23","Node handshake agrees on salts and codewords survive the wire in order",
 "Two connected nodes always end up with each one's encoder using exactly the salt the other's decoder uses, however the transport fragments the bytes, and a broken handshake never yields a working-looking peer. Codewords and loss reports arrive at the peer unchanged and in order.",
 ["fault_sequences","inputs","schedules"],"for all fragmentations of the byte stream, truncations and message contents",
 "The node package has no tests.",
 ["node/controller.go","node/message.go"],
 [("handleConn key exchange","node/controller.go"),("gob send/receive loops","node/controller.go")],None,["net.Conn"])
p("C24","What the network simulations report are statistics of what happened in them",
 "In both network simulations the counters of every node equal what really happened at it since they were last reset (every transaction it received or decoded counted once, every duplicate, every byte or codeword received), and its latency and overlap records hold exactly the samples from the end of the warm-up on. The printed rates, overheads, moments, quantiles and time series are statistics of exactly those counts and samples, rates over the time in which they were counted.",
 ["histories","inputs","configurations"],"for all histories of a simulated network, warm-up times, report intervals, transaction sizes and samples",
 "There are no tests of the simulations or of their reports; wrong figures look as plausible as right ones.",
 ["newsim/main.go","newsim/module.go","newsim/messages.go","newsim/types.go","newsim/filter.go","simulator/main.go","simulator/module.go","simulator/transaction.go","simulator/filter.go"],
 [("counters and resetMetric","newsim/module.go, simulator/module.go"),("distributionSketch","newsim/types.go, simulator/transaction.go"),("collectMoments and main","newsim/main.go, simulator/main.go"),("difference, maximum","newsim/filter.go, simulator/filter.go"),("message.size","newsim/messages.go")],
 [("serverMetric","counters since the reset","newsim/module.go, simulator/module.go"),("sketch","recorded samples","newsim/types.go, simulator/transaction.go")],
 ["serverMetric","distributionSketch.getQuantiles","output of the programs"])
p("C25","Cluster commands act on exactly the servers of their tag and forget none",
 "A confirmed start command with a tag launches the requested number of servers at each matching location where no request fails (and no more, and nowhere else), each carrying the tag from the moment it exists, whatever fails at other locations. Stop terminates every server of the tag (on AWS in whatever state it is, on Vultr those that can be terminated) and no other; reboot likewise; without confirmation or tag nothing is changed. A status list holds every server of the tag exactly once, as it is, in order of location and ID. A failing request affects its own location only (AWS) or makes the command fail (Vultr). No command hangs or crashes, its workers do not race, and whenever a command is cut off, a later stop gets every server it started.",
 ["fault_sequences","crash_points","schedules","histories"],"for all provider answers, failing requests, points at which the tool is killed, server states and sequences of commands",
 "There are no tests; the tool needs provider accounts.",
 ["testbed/aws.go","testbed/vultr.go","testbed/cluster.go"],
 [("AWSStartInstanceAtRegions, AWSStopServersAtRegion, AWSListServersAtAllRegions","testbed/aws.go"),("StartServers, StopServers, RestartServers","testbed/vultr.go"),("dispatchCluster","testbed/cluster.go")],
 [("AWSImageList","shared by the workers of a command","testbed/aws.go")],["requests to the providers","server list file","exit status"])
p("C26","Simulated networks are exactly the configured ones and run repeatably",
 "Both network simulations run exactly the network described by the topology file and the options: the nodes and links of the file and no others, every message between neighbours taking exactly the delay of their link in either direction, and every node generating bursts of the configured size of new, network-wide distinct transactions at the configured average rate for ever, with exactly one next burst scheduled at any time. The same options give the same results on every run when the order in which a node serves its peers is determined.",
 ["configurations","histories"],"for all topologies, delays, generation rates, burst sizes, options and histories",
 "There are no tests of the simulations.",
 ["newsim/topology.go","newsim/main.go","newsim/module.go","newsim/coding.go","newsim/pull.go","newsim/types.go","simulator/topology.go","simulator/main.go","simulator/module.go","simulator/transaction.go"],
 [("loadTopology","newsim/topology.go, simulator/topology.go"),("connect*Servers","newsim/coding.go, newsim/pull.go, simulator/module.go"),("block arrivals","newsim/module.go, simulator/module.go"),("transactionGenerator","newsim/types.go, simulator/transaction.go")],
 None,["loadTopology","Module.HandleMessage","output of the programs"])
p("C27","Experiments run exactly the given topology on the listed servers",
 "The exp command acts on the servers of the list only, and only if all of them can be reached. Running starts exactly one node per server, after whatever ran there before has been stopped, connected to exactly its outgoing peers of the topology at the port that all nodes of the run use, with the options given; installing never replaces a running program; results are collected from stopped nodes, each into its own file; every link is measured once and printed with half its round trip. A failure at one server does not keep the others from being served.",
 ["configurations","fault_sequences","schedules"],"for all server lists, topologies, combinations and sequences of commands, and failures at servers",
 "There are no tests; the tool needs remote servers.",
 ["testbed/exp.go","testbed/sshutil.go","testbed/cluster.go"],
 [("dispatchBwTest","testbed/exp.go"),("runAll, killServer, uploadFile, copyBackFile","testbed/exp.go"),("connectSSH","testbed/sshutil.go")],None,
 ["commands run on the servers","files copied","output"])
p("C28","The node program does what its options say and prints what happened",
 "A running node makes one connection to every address it was given, trying again until somebody listens there, and accepts every peer that connects, whatever other peers do or fail to do. Every transaction that any peer lets it decode (in time), or that it generates (at random intervals of the given average rate), reaches every peer that is connected. Its codewords combine at most the K latest transactions with degrees distributed as the soliton options say, leave at the codeword rate (initial rate, minimum, increment, target loss as given), and report undecoded codewords after the given timeout. Its decoders remember the M latest transactions. A peer that stops reading loses codewords, which are counted, and disturbs no other. What it prints is true: transactions decoded and generated, codeword rates and dropped codewords, codewords received and their delays in the last second, and the number, quantiles and mean of the latencies since the end of a warm-up as long as asked for.",
 ["configurations","schedules","histories","fault_sequences"],"for all options, orders of start and connection, silent or late peers, and contents and timing of codewords, while the peers that completed the handshake stay connected",
 "The node package has no tests; main is only ever run by hand.",
 ["node/main.go","node/controller.go","node/sender.go","node/receiver.go"],
 [("options, listening, dialling, generation","node/main.go"),("controller.loop totals and latencies","node/controller.go"),("sender.loop rate line","node/sender.go"),("receiver.decode delay line","node/receiver.go")],None,
 ["codewords on its connections","lines it prints"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
