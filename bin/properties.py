"""Source of properties.jsonl and MANIFEST.json: bin/mkmanifest.py writes both from this table."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level="proof", note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over.split(), "text": text}, why_tests_cant=why,
                  anchors={"files": files.split(),
                           "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                           "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                           "observe_at": list(observe), "hook_needed": None},
                  level=level, note=note))


prop("C01", "Bit and byte packing is exact",
     "Writing a sequence of bit fields and whole-byte integers produces exactly the bytes made of those fields, most "
     "significant bit first and big endian, for every value at every position in a byte; a whole-byte integer, and "
     "a field after it, always starts a byte of its own. Reading the same widths "
     "back returns the values that were written, signed numbers included. Fields written earlier are never altered "
     "by a later write.",
     "inputs", "every field value, width and bit position, and every content written before",
     "tests check a handful of values at a few positions; the packing must hold for every value at every offset",
     "pyzwave/types.py",
     [("bit/byte writer", "pyzwave/types.py:BitStreamWriter"), ("bit/byte reader", "pyzwave/types.py:BitStreamReader")],
     [("bit cursor", "next free bit of the last byte", "pyzwave/types.py:BitStreamWriter")])

prop("C02", "Reading never goes past the end of the received data",
     "A read wanting more than what is left ends in an end-of-data error and never in partial or made-up values. What "
     "is reported as left, both as a number of bytes and as the remaining data, is exactly what has not been "
     "consumed, wherever in the data the reader stands. Reading consumes exactly what was asked for and peeking "
     "consumes nothing.",
     "inputs", "received data of any length and content, every read size and position",
     "tests read a few well-formed frames from the start; no test covers every length, offset and truncation",
     "pyzwave/types.py", [("reader", "pyzwave/types.py:BitStreamReader")],
     [("position", "next unread bit", "pyzwave/types.py:BitStreamReader")])

prop("C03", "Scalar wire types encode and decode exactly",
     "Every fixed-width value (flags, bit fields, unsigned and signed integers, enumerations listed or not, IPv6 "
     "addresses, device keys) encodes to exactly the bytes of its width, and decodes back to the same value. Reserved "
     "bits are always sent as zero, whatever was received. Decimal readings decode to the signed number divided by "
     "ten to the precision, for every precision, scale and size, and texts to the UTF-8 text of their length.",
     "inputs", "every value of every type at every bit position, followed by any data",
     "tests sample one or two values per type; sign, width and offset errors show only for particular values",
     "pyzwave/types.py",
     [("integer types", "pyzwave/types.py:int_t"), ("bit types", "pyzwave/types.py:BitsBase"),
      ("decimal", "pyzwave/types.py:float_t"), ("key", "pyzwave/types.py:dsk_t"), ("address", "pyzwave/types.py:IPv6")])

prop("C04", "Every command is laid out on the wire as the protocol says",
     "For every command the library knows, encoding produces the command's identifier followed by its fields in the "
     "protocol's order and widths with reserved bits zero, and decoding those bytes (with any reserved bits) gives the "
     "same command with the same field values. Commands contained in others, variable size values and length prefixed "
     "fields round trip in the same way, named values being the protocol's numbers. Encoding a decoded command gives the same bytes again, and two commands are "
     "equal exactly when their bytes are.",
     "inputs", "every known command with every combination of field values",
     "tests decode or encode one sample of some commands; most commands and nearly all values are never exercised",
     "pyzwave/message.py pyzwave/util.py pyzwave/commandclass/Zip.py pyzwave/commandclass/NetworkManagementInclusion.py "
     "pyzwave/commandclass/NetworkManagementProxy.py pyzwave/commandclass/Supervision.py "
     "pyzwave/commandclass/Configuration.py pyzwave/commandclass/Mailbox.py",
     [("encode", "pyzwave/message.py:Message.compose"), ("decode", "pyzwave/message.py:Message.deserialize"),
      ("layouts", "pyzwave/commandclass/*.py: attributes")])

prop("C05", "Short, cut off, longer and unknown commands decode safely",
     "A command cut off at a field border decodes with the fields that arrived and no value for the others; cut inside "
     "a field, or with a length pointing past its end, it is an end-of-data error and never a made-up value. Bytes after "
     "the last known field change nothing. A command the library does not implement, at the top level or inside another, "
     "decodes to an unknown command keeping its command class and command.",
     "inputs", "every known command cut at every byte, every unknown identifier, any trailing data",
     "tests decode complete frames; the cut points times the commands times the values are never enumerated",
     "pyzwave/message.py pyzwave/util.py",
     [("decode", "pyzwave/message.py:Message.deserialize"), ("fields", "pyzwave/util.py:AttributesMixin.parseAttributes")])

prop("C06", "No received datagram can disturb the library",
     "Any datagram, malformed, truncated, unknown or unexpected, arriving on any of the sockets is handled without an "
     "exception reaching the event loop. A datagram that is not a well-formed packet completes no command, is passed to "
     "no listener and changes no state: a following well-formed packet is handled as if it had never arrived.",
     "inputs histories", "every datagram content and length, in any connection state",
     "tests feed a few well-formed packets; arbitrary content from the network is never explored",
     "pyzwave/zipconnection.py pyzwave/zipgateway.py pyzwave/adapter.py pyzwave/connection.py",
     [("packet handler", "pyzwave/zipconnection.py:ZIPConnection.onPacket"),
      ("unsolicited handler", "pyzwave/zipgateway.py:ZIPGateway.onUnsolicitedMessage")])

prop("C07", "A send succeeds exactly when its own packet is acknowledged",
     "Sending a command reports success if and only if a positive acknowledgement carrying that packet's sequence number "
     "arrives before the timeout, and reports failure when the timeout passes without one. Acknowledgements of other "
     "sequence numbers, late or repeated acknowledgements, replies and other traffic neither complete nor break it. Once "
     "a send has ended in any way (success, timeout, cancellation) its sequence number can be used again.",
     "inputs schedules histories", "every sequence number and every order of acknowledgements, timeouts and cancellations",
     "tests ack one command once; orders, duplicates, late acks and cancellations are not covered",
     "pyzwave/adapter.py pyzwave/zipconnection.py",
     [("wait for ack", "pyzwave/adapter.py:Adapter.waitForAck"), ("ack received", "pyzwave/adapter.py:Adapter.ackReceived"),
      ("send", "pyzwave/zipconnection.py:ZIPConnection.send")],
     [("pending acks", "sequence numbers awaiting their acknowledgement", "pyzwave/adapter.py:Adapter")],
     note="symbolic in the sequence numbers, timeouts, times and contents; the orders of events are enumerated (three "
          "sends at most at a time), histories are covered by starting from an arbitrary counter and by showing that "
          "every way of ending leaves nothing behind")

prop("C08", "A queued (waiting) response extends the wait for the sleeping node",
     "A negative acknowledgement with the waiting flag and the packet's sequence number never ends the send: it extends "
     "the wait to the announced delay plus 60 seconds, 180 seconds when the announced delay is negative, 60 when none is "
     "announced, and again for every further such response. The send then succeeds if the acknowledgement arrives within "
     "the extended wait and fails when that passes.",
     "inputs schedules", "every announced delay (24 bit signed), any number of waiting responses, any arrival time",
     "tests use one delay value and do not let the time pass",
     "pyzwave/adapter.py pyzwave/zipconnection.py pyzwave/commandclass/Zip.py",
     [("ack state", "pyzwave/adapter.py:Ack"), ("ack received", "pyzwave/adapter.py:Adapter.ackReceived")],
     [("expected delay", "the wait announced by the gateway", "pyzwave/adapter.py:Ack")],
     note="symbolic in the announced delay, the times and the sequence numbers; repeated waiting responses by the step "
          "from one to the next (and, bounded, fifty in a row)")

prop("C09", "Sequence numbers of outstanding packets are distinct",
     "Successive packets carry sequence numbers that advance by one modulo 256, skipping every number still awaiting its "
     "acknowledgement. No two packets awaiting their acknowledgement ever have the same number, however many commands "
     "have been sent before, so no acknowledgement can complete the wrong command.",
     "histories schedules", "any history of sends (any counter value) and any set of outstanding packets",
     "tests send a few commands from a fresh counter; wrap-around and long outstanding sends are never reached",
     "pyzwave/zipconnection.py pyzwave/adapter.py",
     [("send", "pyzwave/zipconnection.py:ZIPConnection.send")],
     [("sequence counter", "number of the last packet", "pyzwave/zipconnection.py:ZIPConnection")],
     note="any counter value and any set of outstanding numbers (symbolic); long histories are bounded harnesses on top "
          "of the step")

prop("C10", "A request gets its response, whenever it arrives",
     "A request waiting for a kind of response completes with the next message of that kind, also when the response "
     "arrives before the request's own acknowledgement or in the same instant, and times out when none arrives. Every "
     "one of several concurrent waiters for the same kind is completed, messages of other kinds complete none, and a "
     "request that failed, timed out or was cancelled leaves nothing behind that could swallow a later message.",
     "schedules histories", "every order of responses, acknowledgements, timeouts and cancellations of any number of waiters",
     "tests let one response arrive after one ack; races and abandoned waiters are schedules tests cannot enumerate",
     "pyzwave/util.py pyzwave/adapter.py pyzwave/node.py",
     [("waiting sessions", "pyzwave/util.py:MessageWaiter"), ("adapter request", "pyzwave/adapter.py:Adapter.sendAndReceive"),
      ("node request", "pyzwave/node.py:Node.sendAndReceive")],
     [("sessions", "who waits for which kind of message", "pyzwave/util.py:MessageWaiter")],
     note="symbolic in values and times; the orders of responses, acknowledgements, timeouts and cancellations of one "
          "request are enumerated completely, several concurrent ones are bounded (2 to 4)")

prop("C11", "Every listener gets every notification, whatever the others do",
     "A notification reaches every registered listener implementing it exactly once, in order of registration, with the "
     "sender and the arguments, and listeners not implementing it are skipped. A listener that raises does not keep the "
     "others from being called, nor does it break the sender. Asking listeners yields the results of those that answered, "
     "plain functions and coroutines alike.",
     "inputs configurations", "any number and mix of listeners (plain, coroutine, raising, absent)",
     "tests register one or two well-behaved listeners",
     "pyzwave/util.py", [("speak/ask", "pyzwave/util.py:Listenable")],
     [("listeners", "registered listeners in order", "pyzwave/util.py:Listenable")],
     note="any number of listeners of six sorts, by contracts on the two loops over them; every mix of up to 3 (thorough: 4) "
          "and one of 50 are run besides, as bounded cross-checks")

prop("C12", "Attribute containers keep typed values and report each change once",
     "Assigning an attribute stores it converted to its declared type, from a plain value, a stored state or a value of "
     "the type itself, and reading it gives that value. A change is reported once with the new and the old value and an "
     "assignment of an equal value is not reported at all. Undeclared names are ordinary attributes, and the state taken "
     "from a container restores an equal container.",
     "inputs", "every value of every attribute type, set in any order",
     "tests assign a couple of values to one container",
     "pyzwave/util.py pyzwave/commandclass/CommandClass.py",
     [("attributes", "pyzwave/util.py:AttributesMixin"), ("dictionaries", "pyzwave/commandclass/CommandClass.py:VarDictAttribute")])

prop("C13", "What is stored for a node is restored unchanged",
     "Everything the command classes of a node have learnt (versions, interview status, product numbers, association "
     "groups, parameter values, sensor types) is stored when the node reports an update and comes back with equal values "
     "when the node is loaded from that file in a new process. Nodes and endpoints have files of their own. Storing a node "
     "whose settings cannot be written leaves what was stored before intact, and loading a node with nothing stored "
     "changes nothing.",
     "inputs configurations", "every combination of learnt values of every command class with settings",
     "tests mock the file or store one value; conversion through text breaks for particular values and classes only",
     "pyzwave/persistantstorage.py pyzwave/util.py pyzwave/commandclass/CommandClass.py pyzwave/commandclass/Association.py "
     "pyzwave/commandclass/AssociationGrpInfo.py pyzwave/commandclass/Configuration.py",
     [("storage", "pyzwave/persistantstorage.py:YamlStorage"), ("state", "pyzwave/util.py:stateOf")],
     [("node file", "the stored settings", "<path>/nodes/<node id>.yml")],
     note="every value of every setting is symbolic; the shapes (numbers of groups, parameters, classes) are enumerated "
          "up to two; PyYAML itself is a stated assumption, used for real in the native runs")

prop("C14", "The storage lock coalesces updates and never loses one",
     "Outside a storage lock every update of a command class is signalled for storage at once. Inside one none is "
     "signalled, and leaving it, normally or by an exception, signals exactly once if there was any update and not at all "
     "otherwise; of nested or overlapping locks that is the last one left. After it everything works as before it.",
     "histories", "any sequence of updates inside and outside locks, with or without an exception",
     "tests check one lock with one update",
     "pyzwave/node.py", [("storage lock", "pyzwave/node.py:Node.storageLock"), ("update", "pyzwave/node.py:Node.commandClassUpdated")],
     [("storage status", "clean, locked or locked with updates", "pyzwave/node.py:Node")],
     note="every history, by closure over the states of the node: from each reachable state each operation is made and "
          "compared with the property, until no new state appears (up to 4, thorough 6, locks held at a time)")

prop("C15", "Node information is split into supported, secure and controlled classes",
     "Every command class listed by a node before the support/control mark is supported, those after it are controlled "
     "only, and those after the security mark are supported and need security. Marks are never taken for command classes, "
     "the order and repetition of the others do not matter, and a list ending in the middle of a mark is accepted. Known "
     "classes get their implementation and unknown ones a generic one with their number.",
     "inputs", "every list of command class bytes",
     "tests use a few hand-written lists", "pyzwave/node.py pyzwave/commandclass/CommandClass.py",
     [("node constructor", "pyzwave/node.py:Node.__init__"), ("class loader", "pyzwave/commandclass/CommandClass.py:CommandClass.load")],
     note="lists of any length, by a contract on the loop over the list; every list of up to 5 (thorough: 6) marks and classes, "
          "and long ones, are run besides, as bounded cross-checks")

prop("C16", "Every supervised command is carried out and answered exactly once",
     "A command received inside a supervision command is handled exactly as if it had been received directly. Exactly one "
     "report with the same session number is sent back to the endpoint it came from, telling success if the command was "
     "handled and no support otherwise, also when the supervision command is empty or contains an unknown command. Commands "
     "received without supervision are never answered in that way.",
     "inputs", "every session number, flags and contained command",
     "tests check one handled and one unhandled command", "pyzwave/node.py pyzwave/commandclass/Supervision.py",
     [("supervision", "pyzwave/node.py:supervision"), ("dispatch", "pyzwave/node.py:Node.handleMessage")])

prop("C17", "A node's message goes to waiters, its command class, then listeners",
     "A message from a node completes every request of that node waiting for it and is also handled by the supported "
     "command class it belongs to. Listeners for otherwise unhandled messages are asked only if neither took it, and the "
     "message counts as handled exactly if one of the three handled it. Command classes the node only controls or does not "
     "have never receive messages, and reports update the values of the class they belong to.",
     "inputs configurations", "every kind of message, set of supported classes, waiters and listener answers",
     "tests cover single paths of the dispatch", "pyzwave/node.py pyzwave/commandclass/CommandClass.py pyzwave/util.py",
     [("dispatch", "pyzwave/node.py:Node.handleMessage"), ("class handler", "pyzwave/commandclass/CommandClass.py:CommandClass.handleMessage")])

prop("C18", "The mailbox loses no message, duplicates none and delivers each once",
     "A pushed message is stored only if the waiting notice reached the mailbox proxy, and never when an equal one is "
     "already stored for that queue, also when it is pushed twice at the same time. A wake-up or an acknowledgement sends "
     "one stored message of that queue, marked as the last one exactly when no other is left, or an empty last message when "
     "nothing is stored. A message leaves the mailbox only when its delivery succeeded: failed, raising or cancelled "
     "deliveries keep it for the next time.",
     "histories schedules fault_sequences", "any history of pushes, wake-ups and acknowledgements over any queues, with any delivery failing",
     "tests push and pop one message; failures and interleavings during delivery are not covered",
     "pyzwave/mailbox.py", [("push", "pyzwave/mailbox.py:MailboxService.__pushQueue__"), ("pop", "pyzwave/mailbox.py:MailboxService.__popQueue__")],
     [("queues", "stored messages per queue handle", "pyzwave/mailbox.py:MailboxService")],
     note="every history, by closure over the states of the mailbox for one and two queues with up to two messages; "
          "contents, handles and nodes are symbolic in separate harnesses; overlapping operations are enumerated in pairs")

prop("C19", "A stored message is announced every minute until it is delivered",
     "For every stored message a waiting notice with the message goes to the mailbox proxy every 60 seconds, and every tenth "
     "one is a ping instead. The notices stop when the message has been delivered, and not before, and messages that were "
     "not stored are never announced.",
     "schedules", "any number of minutes, messages and queues", "tests cannot wait ten minutes and patch the sleep away",
     "pyzwave/mailbox.py", [("heartbeat", "pyzwave/mailbox.py:QueueItem")],
     [("heartbeat task", "running while the message is stored", "pyzwave/mailbox.py:QueueItem")],
     note="the loop of the announcements by a contract, for any minute and any second of its end; whole histories of up to 45 "
          "(thorough: 300) minutes, overlapping deliveries and several messages are bounded")

prop("C20", "Unsolicited reports are acknowledged and delivered to the right node",
     "A packet from the address of a known node, other than a node list report, that requests an acknowledgement gets "
     "exactly one, to the address and port "
     "it came from, with the same sequence number and the endpoints exchanged; one not requesting it gets none. Its command "
     "is delivered once, to the node with that address and the endpoint it was sent from. Packets from unknown addresses are "
     "neither acknowledged nor delivered.",
     "inputs configurations", "every packet content, sequence number, endpoints, node set and source address",
     "tests use one node and one packet", "pyzwave/zipgateway.py pyzwave/commandclass/Zip.py",
     [("unsolicited handler", "pyzwave/zipgateway.py:ZIPGateway.onUnsolicitedMessage"), ("ack", "pyzwave/commandclass/Zip.py:ZipPacket.response")],
     [("node addresses", "which node has which address", "pyzwave/zipgateway.py:ZIPGateway")],
     note="symbolic packet contents, numbers, endpoints, flags and ports; any number of nodes by a contract on the search for "
          "the sender; the other harnesses sample addresses")

prop("C21", "Each node is reached at its own address over one connection",
     "A command to a node leaves over a connection to the address advertised for that very node, also when advertisements "
     "of other nodes arrive first or in between. All commands to a node share one connection, also when they are sent at "
     "the same time before it is up, and nodes never share one. The known node list follows the reports of the controller: "
     "removed nodes are forgotten, new ones get their address retrieved, known addresses are kept, and a node not answering "
     "does not keep the others from being known.",
     "schedules histories inputs", "any order of advertisements, node list reports and concurrent commands",
     "tests patch the address lookup and send one command at a time",
     "pyzwave/zipgateway.py", [("connect", "pyzwave/zipgateway.py:ZIPGateway.connectToNode"), ("lookup", "pyzwave/zipgateway.py:ZIPGateway.ipOfNode"),
                               ("node list", "pyzwave/zipgateway.py:ZIPGateway.getNodeList")],
     [("connections", "node id to connection", "pyzwave/zipgateway.py:ZIPGateway"), ("nodes", "node id to address", "pyzwave/zipgateway.py:ZIPGateway")], level="other",
     note="bounded, but for which lookups an advertisement answers (any advertisement, any number of waiting lookups, by a "
          "loop contract): sampled nodes and addresses, enumerated orders of advertisements, reports, commands, failures and "
          "cancellations")

prop("C22", "Network management requests are numbered, answered and time out cleanly",
     "Every network management command carries a sequence number of its own that advances by one modulo 256 and is always "
     "one byte, and the fields it was asked for. Its result is the content of the controller's report, or for commands "
     "without one whether the controller acknowledged it; without a report or acknowledgement the "
     "call returns, after its timeout, the documented empty result (an empty list, no endpoints, an empty report, failure) "
     "and raises nothing.",
     "inputs histories", "every counter value, every argument and report content, with or without a report",
     "tests use fresh counters, and a single report; wrap-around needs 256 commands", "pyzwave/zipgateway.py",
     [("network management", "pyzwave/zipgateway.py:ZIPGateway")],
     [("network management counter", "number of the last command", "pyzwave/zipgateway.py:ZIPGateway")])

prop("C23", "The application's nodes follow the network's node list",
     "After start-up and after every node list update the application holds exactly the nodes of the network except the "
     "controller itself, each with its endpoints and the information the gateway has for it. Exactly the nodes added and "
     "removed are announced, each once, individually and as a batch, and nodes already known are kept as they are. This also "
     "holds when updates overlap.",
     "histories schedules configurations", "any sequence of node lists, endpoints per node, overlapping updates",
     "tests use one update adding or removing one node", "pyzwave/application.py",
     [("update", "pyzwave/application.py:Application.nodeListUpdated"), ("startup", "pyzwave/application.py:Application.startup"),
      ("load", "pyzwave/application.py:Application.loadNode")],
     [("nodes", "node id (root:endpoint) to node", "pyzwave/application.py:Application")])

prop("C24", "Messages reach the node or listener they are meant for",
     "A message from a node's endpoint is handled by exactly that node or endpoint, and one for an unknown node by none. "
     "Messages of the controller itself go to the listeners; inclusion and exclusion progress is announced with its report, "
     "and an exclusion completed without a known node is announced as node 0. The result tells whether it was handled.",
     "inputs configurations", "every node id, endpoint, message and status",
     "tests check a single node with endpoint 0", "pyzwave/application.py",
     [("routing", "pyzwave/application.py:Application.messageReceived"), ("adapter messages", "pyzwave/application.py:Application.onMessageReceived")])

prop("C25", "The connection is kept alive exactly when it has been idle",
     "A connected connection sends a keep-alive requesting an acknowledgement whenever 25 seconds have passed since the last "
     "command or keep-alive it sent, and never earlier. This goes on for as long as the connection lives, whether or not it "
     "is answered; there is never more than one pending timer.",
     "schedules", "any times of sends over any period", "tests call the timer callback directly",
     "pyzwave/zipconnection.py", [("keep-alive", "pyzwave/zipconnection.py:ZIPConnection.resetKeepAlive")],
     [("timer", "next keep-alive", "pyzwave/zipconnection.py:ZIPConnection")])

prop("C26", "Association lists are exact on the wire, in storage and at lifeline setup",
     "A list of associations encodes to the plain nodes, then, only if there are any, the marker and the node/endpoint pairs, "
     "and decodes and is restored from storage to the same list. Membership of a node with an endpoint is answered exactly, "
     "no endpoint being the root. The lifeline of a node is set to the controller exactly when it is missing, with endpoint "
     "addressing when the node has it, and the result is what the node reports afterwards.",
     "inputs configurations", "every list of nodes and endpoints",
     "tests use a few literal lists", "pyzwave/commandclass/Association.py pyzwave/commandclass/MultiChannelAssociation.py",
     [("list", "pyzwave/commandclass/Association.py:Nodes"), ("lifeline", "pyzwave/commandclass/Association.py:Association")],
     note="lists of any length by contracts on the seven loops over them; the lifeline for any group of up to three nodes, all "
          "numbers symbolic; whole interviews with 0 to 3 and 255 groups are bounded")

prop("C27", "A command class is interviewed only when its interview completed",
     "The version of a command class is asked for before its first interview, and no interview is made while it is unknown. "
     "The class counts as interviewed exactly when its last interview ran to its end: one that timed out or failed leaves it "
     "not interviewed, even if an earlier one succeeded. The interview of a node tries every class, a class not answering "
     "does not keep the others from being interviewed, and a completed one leaves exactly the values reported.",
     "fault_sequences histories", "any class not answering at any point, any sequence of interviews",
     "tests interview a single class that answers", "pyzwave/commandclass/CommandClass.py pyzwave/node.py",
     [("interview", "pyzwave/commandclass/CommandClass.py:interviewDecorator"), ("node interview", "pyzwave/node.py:Node.interview")])

prop("C28", "Node lists and sensor lists decode to exactly the listed members",
     "A node list decodes to exactly the nodes whose bits are set, for all 232 node ids, and needs all of its 29 bytes. A "
     "list of supported sensor types decodes to exactly the types whose bits are set, for any number of bytes, whether or "
     "not the library has a name for the type.",
     "inputs", "every combination of bits, every number of bytes",
     "tests decode a few nodes of the first byte", "pyzwave/commandclass/NetworkManagementProxy.py pyzwave/commandclass/SensorMultilevel.py",
     [("node list", "pyzwave/commandclass/NetworkManagementProxy.py:NodeList"), ("sensor list", "pyzwave/commandclass/SensorMultilevel.py:SensorSupported")],
     note="node lists as one formula over all 2**232 masks; sensor lists by a contract on the loop over the bits")

prop("C29", "Lists of typed elements decode element by element, skipping unknown types",
     "Header extensions, transmission statistics, provisioning metadata, association group information and group command "
     "lists decode to exactly the elements they contain, each with its own value, in any order and number. Elements of "
     "unknown types are skipped without disturbing the ones after them, and an element longer than the data is an end-of-data "
     "error.",
     "inputs", "any number, order, type, length and content of elements",
     "tests decode one recorded frame of each kind", "pyzwave/commandclass/Zip.py pyzwave/commandclass/NodeProvisioning.py "
     "pyzwave/commandclass/AssociationGrpInfo.py",
     [("header extension", "pyzwave/commandclass/Zip.py:HeaderExtension"), ("statistics", "pyzwave/commandclass/Zip.py:ZIPPacketOptionMaintenanceReport"),
      ("metadata", "pyzwave/commandclass/NodeProvisioning.py:MetadataExtension")],
     note="data of any length by contracts on the loops over the elements; group lists exhaustively for every number of "
          "elements their count field can tell")

prop("C30", "Device keys read as eight groups of five digits, both ways",
     "A 16 byte device key is shown as eight groups of five digits, each the decimal value of two bytes, and a key given in "
     "that form is the same 16 bytes. Keys given as bytes must be 16 bytes or none; any other length is refused.",
     "inputs", "every 16 byte key", "tests use one or two keys; leading zeros and the extreme values need not be among them",
     "pyzwave/types.py", [("key", "pyzwave/types.py:dsk_t")])

prop("C31", "Endpoints share their node's identity but are addressed on their own",
     "Commands from a node go to its node id and endpoint: endpoint 0 for the node itself, the endpoint's number for an "
     "endpoint, with the given timeout. An endpoint has its parent's listening, failing, frequent listening and basic class "
     "information, always its current one, and command classes, waiters and listeners of its own. The textual id is the node "
     "id, a colon and the endpoint, different for every node and endpoint.",
     "inputs configurations", "every node id, endpoint, timeout and parent state", "tests check one endpoint",
     "pyzwave/node.py", [("send", "pyzwave/node.py:Node.send"), ("endpoint", "pyzwave/node.py:NodeEndPoint")])

prop("C32", "Sensor reports pass only for sensors the node supports",
     "From version 5 on, a sensor report of a type or scale missing from what the node told it supports is kept from the "
     "application, and every other report reaches it, all of them while the node has not told. Supported types and scales are "
     "exactly those of the last complete interview. Asking for a reading or a parameter returns what the node then reports, "
     "cached values being used only when allowed.",
     "inputs configurations", "every version, type, scale and set of supported sensors",
     "tests cover one supported and one unsupported type", "pyzwave/commandclass/SensorMultilevel.py pyzwave/commandclass/Configuration.py",
     [("filter", "pyzwave/commandclass/SensorMultilevel.py:SensorMultilevel"), ("parameters", "pyzwave/commandclass/Configuration.py:Configuration")])
