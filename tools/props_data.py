NAP = []

prop('C01', 'Encoded messages decode to themselves',
     'For every message that may travel over UDP and every assignment of values to its fields, the encoded packet decodes to a message with the same name, packet id, flags, block counts and field values. Encoding the decoded message again gives the same bytes. Text fields travel with a terminator that is not part of the value; fields named Data are binary and arrive byte for byte.',
     ['inputs'], 'all messages of the template, all field values, bounded lengths and repeats',
     'The tests encode a handful of messages with one value each; none decodes what it encoded across the 475 templates.',
     ['message/udpserializer.py', 'message/udpdeserializer.py', 'message/data_packer.py', 'message/data_unpacker.py', 'message/template_parser.py', 'message/template_dict.py', 'message/message.py', 'message/template.py'],
     [('serialize', 'message/udpserializer.py'), ('deserialize', 'message/udpdeserializer.py')],
     'Covers every UDP message; bounds: up to 2 (quick) or 5 (thorough) bytes per variable field, 0-3 repeats; NaN and quaternion arithmetic excluded.')

prop('C02', 'Packets have exactly the layout the message template prescribes',
     'An encoded packet is: flags byte, four-byte big-endian packet id, zero offset byte, the message number in its frequency form, then every block and field in template order. Integers and floats are little-endian, ports big-endian, identifiers and addresses raw, variable fields carry a length of the declared width, variable blocks a one-byte count. Text is UTF-8 with one terminating zero, an absent text is only the terminator.',
     ['inputs'], 'all messages of the template, all field values, all packet ids and flag bytes, bounded lengths and repeats',
     'Tests compare a few recorded packets; layout must hold for every template and every value.',
     ['message/udpserializer.py', 'message/data_packer.py', 'message/template_parser.py', 'message/template_dict.py'],
     [('serialize', 'message/udpserializer.py'), ('pack_data', 'message/data_packer.py'), ('build_message_ids', 'message/template_dict.py')],
     'The expected bytes come from an independent reader of message_template.msg; RegionHandshakeReply is expected to carry four extra zero bytes, as documented in the code.')

prop('C23', 'Vectors, quaternions and identifiers reproduce their bytes',
     'A vector, quaternion or identifier read from bytes at any offset writes the same bytes back, exposes its components in order, and its copy is equal and independent. Identifiers survive their text form; they are equal, hash alike and count as one dictionary key exactly when their bytes are equal; exclusive-or is bytewise. A quaternion read from twelve bytes is completed to a unit quaternion with a non-negative last component.',
     ['inputs'], 'all byte buffers (NaN excluded), all float and identifier values',
     'Tests check one literal per type.',
     ['datatypes.py'], [('Vector3, Quaternion, UUID', 'datatypes.py')],
     'Float arithmetic of the completion is decided bit-precisely.')

prop('C03', 'The message number of a packet selects exactly its message',
     'The number bytes of a packet select the message that the template gives this number, in its frequency: one byte for High, two for Medium, four for Low and Fixed. A number the template does not define is refused with a deserialization error and never taken for another message. Looking a message up by name, or by frequency and number, agrees with that, and the same header fields are reported whether or not the body is parsed.',
     ['inputs'], 'all values of the number bytes, packet id and flags byte; all frequencies and numbers',
     'Tests decode a few recorded packets; 2^32 number prefixes exist and only 475 are defined.',
     ['message/udpdeserializer.py', 'message/template_dict.py', 'message/template_parser.py'],
     [('__decode_num, __decode_header', 'message/udpdeserializer.py'), ('get_template_by_pair', 'message/template_dict.py')],
     'All 32-bit prefixes are covered by path conditions.')

prop('C04', 'Zero-coded packets decode exactly like their expanded form',
     'Expanding zero-coded bytes inverts zero coding for every byte string, including runs of more than 255 zeros, and leaves the flags, id and offset bytes alone. A zero-coded packet therefore decodes to the same message, fields and acks as the packet that was not coded. Appended acks are never part of the coding.',
     ['inputs'], 'all payloads up to the stated length, runs of up to 600 zeros, all messages named in the cases',
     'Tests expand one recorded packet.',
     ['message/udpdeserializer.py'], [('zero_code_expand', 'message/udpdeserializer.py')],
     'Payloads of up to 6 (quick) or 9 (thorough) arbitrary bytes.')

prop('C05', 'Appended acks travel separately from the message data',
     'A packet with the ack flag ends in the acked packet ids, each four bytes in network byte order, and their count byte; reading it yields exactly these ids in order and the message that the same packet without acks yields. Writing a message with pending acks appends exactly these and sets the flag; without acks nothing is appended. The message data never absorbs ack bytes, and acks never absorb data.',
     ['inputs'], 'all UDP messages, all field values, all ack ids',
     'No test sends or receives appended acks for more than a literal.',
     ['message/udpserializer.py', 'message/udpdeserializer.py', 'message/circuit.py'],
     [('serialize', 'message/udpserializer.py'), ('deserialize', 'message/udpdeserializer.py')],
     '0 to 3 acks for every message, up to 255 for one.')

prop('C06', 'Whatever bytes arrive, decoding ends in a message, nothing, or its error',
     'For every byte string as a datagram, decoding returns a message, returns nothing (not for us), or raises a message deserialization error; no other exception escapes and it always terminates. A truncated or malformed packet is never reported as a message with invented fields. The receiving loop survives such a datagram and processes the next one.',
     ['inputs'], 'all byte strings up to the stated length after each possible message number; truncations and single-byte corruptions of valid packets',
     'Tests feed only well-formed recorded packets.',
     ['message/udpdeserializer.py', 'message/data_unpacker.py', 'message/udpdispatcher.py', 'message_manager.py'],
     [('deserialize', 'message/udpdeserializer.py'), ('receive_check', 'message/udpdispatcher.py'), ('_udp_dispatcher', 'message_manager.py')],
     'Arbitrary packets of up to 7 (quick) or 9 (thorough) bytes, numbers followed by up to 3 or 6 bytes.')

prop('C07', 'message.xml decides which messages may travel over UDP',
     'A message is sent or accepted over UDP exactly when message.xml, the embedded or a custom one, gives it the template flavor or does not name it. Otherwise sending it puts nothing on the network, and a received packet is dropped without being decoded or delivered. This holds for every way of configuring it and with deferred parsing on or off.',
     ['inputs', 'configurations'], 'every message of the template; every flavor assignment in a custom file; every short name',
     'Tests query three names of the embedded file.',
     ['message/message_dot_xml.py', 'message/udpserializer.py', 'message/udpdeserializer.py', 'message/udpdispatcher.py'],
     [('validate_udp_msg', 'message/message_dot_xml.py'), ('send_message', 'message/udpdispatcher.py')],
     'Exhaustive over the template and the flavor assignments of three messages.')

prop('C08', 'Every field type packs to its wire bytes and unpacks to the same value',
     'For each of the twenty field types every value packs to the bytes the protocol prescribes and unpacks to an equal value of the same kind, at any offset and without reading neighbouring bytes. Text is UTF-8, absent text is only a terminator, binary is verbatim. A buffer that is too short is refused with an unpacking error.',
     ['inputs'], 'all values of all field types, all offsets up to 4, all shorter buffers',
     'Tests pack a few literals of some types.',
     ['message/data_packer.py', 'message/data_unpacker.py', 'message/msgtypes.py', 'datatypes.py'],
     [('pack_data', 'message/data_packer.py'), ('unpack_data', 'message/data_unpacker.py')],
     'NaN payloads excluded; strings of up to 6 bytes.')

prop('C09', 'A message that does not fit the wire format is refused, never truncated',
     'A variable field longer than its length prefix can express, more than 255 repeats of a block, the wrong number of blocks where the template fixes it, or a fixed field of another size is refused with a serialization error, and nothing is sent, nor for a message the template does not have. What just fits is sent and decodes to the same values.',
     ['inputs'], 'lengths and counts around each limit, with arbitrary contents',
     'Tests never reach a limit of the format.',
     ['message/udpserializer.py', 'message/udpdispatcher.py'], [('serialize', 'message/udpserializer.py')],
     'Lengths around 255/256 and 65535/65536, counts around 255/256/511/512.')

prop('C10', 'Every packet sent to a host carries the next packet id of its circuit',
     'Packets to one host have consecutive ids, in sending order, whatever is sent, resent, received or acked in between, and the id in the packet is the one in its message object. Circuits of different hosts count independently. Receiving never changes the outgoing count.',
     ['histories', 'inputs'], 'all histories of sends and receptions up to the stated length, any starting id',
     'Tests check the first two ids of one circuit.',
     ['message/circuit.py', 'message/udpdispatcher.py'], [('next_packet_id, prepare_packet', 'message/circuit.py'), ('send_message', 'message/udpdispatcher.py')],
     'Histories of 4 (quick) or 6 (thorough) operations.', [dict(name='last_packet_out_id', meaning='last id used on the circuit')])

prop('C11', 'A reliable packet is awaited until, and only until, its own ack arrives',
     'A packet sent reliably carries the reliable flag and is remembered under its id until an ack for exactly this id arrives on this circuit, appended to a packet or in a PacketAck. Unreliable packets are never remembered. Acks for other ids, duplicates and acks on other circuits change nothing and raise nothing.',
     ['histories', 'inputs'], 'all histories of sends and acks up to the stated length, any ids, deferred parsing on and off',
     'Tests ack one packet once.',
     ['message/circuit.py', 'message/udpdispatcher.py', 'message/udpdeserializer.py'],
     [('ack_reliable_packet, handle_packet', 'message/circuit.py'), ('receive_check', 'message/udpdispatcher.py')],
     'Histories of 4 (quick) or 6 (thorough) operations, up to 3 acks at a time.', [dict(name='unacked_packets', meaning='packets that wait for an ack')])

prop('C12', 'Every reliable packet received is acked to its sender, nothing else is',
     'After the ack round, the ids acked to a host - in PacketAck messages of at most 255 ids or appended to other packets - are exactly those of the reliable packets received from it, whether or not their message was watched or parsed. Ids of unreliable packets are never acked, no id is sent to another host, and none is lost when many are pending. Nothing stays pending afterwards.',
     ['histories', 'inputs'], 'all histories of receptions up to the stated length with any ids; 0 to about 500 pending acks',
     'Tests collect two acks.',
     ['message/circuit.py', 'message/udpdispatcher.py'], [('collect_ack, prepare_packet', 'message/circuit.py'), ('process_acks, __send_acks', 'message/udpdispatcher.py')],
     'Histories of 3 (quick) or 4 (thorough) operations.', [dict(name='acks', meaning='ids to acknowledge')])

prop('C13', 'An unacknowledged reliable packet is sent again, an acknowledged one is not',
     'A reliable packet whose ack does not arrive is sent again by the ack round, flagged as resent, with the same id and contents, at most as often as its retries allow. A packet that was acknowledged is never sent again.',
     ['histories', 'fault_sequences'], 'up to three packets, 0 to 2 retries, any subset acknowledged, up to 3 rounds',
     'No test loses an ack.',
     ['message/circuit.py', 'message/udpdispatcher.py'], [('add_reliable_packet', 'message/circuit.py'), ('process_acks, __send_acks', 'message/udpdispatcher.py')],
     'The first half is an open known finding: the code never resends; the second half is checked.')

prop('C14', 'Each host has its own circuit; traffic with one leaves the others alone',
     'Address and port together identify a circuit; looking up any other pair never yields it. The packets, ids and acks exchanged with one host are the same whether or not another host talks at the same time. A packet received is attributed to the host it came from.',
     ['histories', 'inputs'], 'any two addresses and ports; histories up to the stated length compared with the same history without the other host',
     'Tests use a single host per test.',
     ['message/circuit.py', 'message/udpdispatcher.py', 'network/net.py'], [('CircuitManager', 'message/circuit.py'), ('find_circuit', 'message/udpdispatcher.py')],
     'Two runs are compared symbolically (non-interference).')

prop('C15', 'An event calls each of its subscribers once, in order, with their arguments',
     'Notifying an event calls every handler subscribed at that moment once per subscription, in order of subscription, with the value and the arguments it subscribed with. Unsubscribing removes exactly one matching subscription, or raises ValueError and removes none; clearing removes all; the count is exact. Handlers that unsubscribe or subscribe while being notified do not disturb the round.',
     ['histories', 'inputs'], 'all histories of subscriptions, removals and notifications up to the stated length',
     'Tests notify one handler once.',
     ['events.py'], [('Event', 'events.py')],
     'Histories of 4 (quick) or 5 (thorough) operations with two handlers.')

prop('C16', 'A handled message reaches the subscribers of its name, and nobody else',
     'A message is delivered once to each handler subscribed under exactly its name and to no other; a name counts as watched exactly once it was registered. Incoming packets deliver the decoded message once, outgoing ones the message as sent, each only if the settings ask for it; errors of a handler reach the caller.',
     ['histories', 'inputs'], 'all histories up to the stated length under arbitrary short names; quiet and verbose settings',
     'Tests deliver one message.',
     ['message/message_handler.py', 'message/udpdispatcher.py', 'events.py'], [('handle, is_message_handled', 'message/message_handler.py'), ('receive_check', 'message/udpdispatcher.py')],
     'Histories of 4 (quick) or 5 (thorough) operations.')

prop('C17', 'Skipping unwatched messages changes nothing but their delivery',
     'With deferred parsing on, a packet nobody watches is not decoded, but its id, reliability and acks have the same effect on the circuit as with deferred parsing off, and what is sent in reply is the same bytes. Watched messages are delivered in full with either setting.',
     ['histories', 'configurations', 'inputs'], 'every UDP message with any relevant flags and values; histories up to the stated length; both settings compared',
     'Tests only see one setting at a time.',
     ['message/udpdeserializer.py', 'message/udpdispatcher.py', 'message/circuit.py'], [('deserialize', 'message/udpdeserializer.py'), ('receive_check', 'message/udpdispatcher.py')],
     'Relational check over two dispatchers.')

prop('C18', 'An event queue response becomes exactly the messages it carries',
     'Every event of a response becomes one message of its name with all values of its body, in order; events known to the message template keep their block structure, others have their values in one block. Nothing else is dispatched, and the messages carry the id of the response and the host of the queue.',
     ['inputs'], 'every message of the template with 0 to 2 repeats of its blocks; foreign messages; any values; 0 to 3 events',
     'Tests decode one event.',
     ['event_queue.py', 'message/message.py'], [('_decode_eq_result, _parse_result', 'event_queue.py')],
     'Stand-in capability; every template message.')

prop('C19', 'The event queue acknowledges what it got and survives failures',
     'Each poll acknowledges the id of the latest answer (nothing after an empty answer), a failed poll is repeated with the same acknowledgement, and a stopped queue sends one last acknowledgement marked done. Every event of a well-formed answer is dispatched exactly once and in order. HTTP failures, malformed answers and raising handlers do not end the polling; stopping does.',
     ['fault_sequences', 'histories'], 'all sequences of poll outcomes up to the stated length, stopped after any poll',
     'Tests never poll.',
     ['event_queue.py'], [('_processRegionEventQueue, start, stop', 'event_queue.py')],
     'Sequences of 4 (quick) or 5 (thorough) outcomes; coroutine switches are not modelled.', [dict(name='last_id', meaning='id to acknowledge')])

prop('C20', 'A capability call ends in the parsed answer or in the error that fits',
     'A GET, POST or POST_CUSTOM makes one request to the url of the capability, with exactly the caller\'s headers (LLSD as default type) and payload, and yields the value the LLSD answer holds. Not found, any other HTTP error, an unknown content type and an answer that is not LLSD each end in their own error, which names url, status, text or type. Requests share nothing.',
     ['inputs', 'fault_sequences'], 'all payloads and answers within the stated shapes, all HTTP status codes, content types and headers; pairs of calls',
     'Tests need a live server; none runs offline.',
     ['caps.py', 'helpers.py', 'exc.py'], [('GET, POST, POST_CUSTOM', 'caps.py'), ('LLSDDeserializer', 'helpers.py')],
     'Content types of up to 22 characters; the REST client and LLSD parsing are stand-ins.')

prop('C21', 'A seed capability yields exactly the capabilities asked for',
     'Asking a seed for names makes one request with exactly these names and returns one capability per name, with the url the answer gives for it, the REST client and the settings of the seed. Asking for nothing gives nothing. Different seeds, and repeated requests, do not mix; an HTTP error reaches the caller.',
     ['inputs', 'histories'], 'any selection of names, with repeats and in any order, and arbitrary urls; two seeds and two requests',
     'No offline test asks a seed for capabilities.',
     ['caps.py'], [('SeedCapability.get', 'caps.py')],
     'Up to 3 (quick) or 5 (thorough) names.')

prop('C22', 'The message manager sends each queued message once and in order',
     'Messages queued in any round, by the caller or by handlers, are each sent once to the host, in the order of the queue with urgent ones first, reliably exactly if queued so. A message that cannot be sent, or a received packet that raises, stops neither the others nor the loop. Stopping ends both loops, even before they ran; before the start nothing is sent.',
     ['histories', 'fault_sequences'], 'all histories of receiving and queueing up to the stated length, with any values; stop at every point',
     'No test runs the loops.',
     ['message_manager.py', 'event_queue.py', 'message/udpdispatcher.py'],
     [('enqueue_message, _udp_dispatcher, start_monitors, stop_monitors', 'message_manager.py')],
     'Up to 3 (quick) or 5 (thorough) rounds; coroutines run one after the other.', [dict(name='outgoing_queue', meaning='messages to send')])

prop('C24', 'Helper conversions are exact and refuse what they cannot convert',
     'Hex and base64 forms hold exactly the bytes and hex reads back to them; anything that is not pairs of hex digits is a parsing error. Integers become their four little-endian bytes, packed 8- and 16-bit values the value at their place of the range, LLSD values survive writing and reading, text that is not LLSD is refused. A wait blocks for its whole duration unless it is stopped.',
     ['inputs'], 'all byte strings up to the stated length, all 32-bit integers, all packed values in five ranges, all clock steps',
     'Tests do not touch these helpers.',
     ['helpers.py'], [('Helpers', 'helpers.py'), ('LLSDDeserializer', 'helpers.py'), ('Wait', 'helpers.py')],
     'Strings of up to 6 (quick) or 12 (thorough) bytes; floats within 1e-9 of the range.')

prop('C26', 'A message template file gives exactly the messages it declares',
     'Parsing a template yields every message with its name, frequency, number, trust, encoding and deprecation, every block with its kind and count, and every field with its type and size, in order and whatever the layout; comments may hold anything. The dictionary finds a message by name and by frequency and number, and nothing else. A missing file, a count or size that is missing and a size of zero are refused with their own errors.',
     ['inputs'], 'all names, numbers, counts, sizes, blanks and comments within the stated lengths; four layouts; files with two messages',
     'Tests only ever read the embedded file.',
     ['message/template_parser.py', 'message/template_dict.py', 'message/template.py'],
     [('_parse_template_file', 'message/template_parser.py'), ('build_dictionaries, build_message_ids', 'message/template_dict.py')],
     'Names of 2 (quick) or 3 (thorough) characters, files of two messages with up to two blocks of two fields.')

prop('C27', 'A message keeps every block, repeat and value it is built from',
     'A message built from blocks, singly or in lists, or with the LLSD builder, has exactly these block names, repeats in order and values, in every way of access and in its dict form. Messages share nothing, acks are kept in order and counted, and growing one later changes only it. Any message can be shown.',
     ['inputs', 'histories'], 'all sequences of blocks up to the stated length with values of any kind; two messages at once',
     'Tests build one message of one block.',
     ['message/message.py', 'message/template.py', 'message/llsd_builder.py'],
     [('Message, Block', 'message/message.py'), ('MsgData, MsgBlockData', 'message/template.py'), ('LLSDMessageBuilder', 'message/llsd_builder.py')],
     'Up to 4 (quick) or 5 (thorough) blocks under two names.')

prop('C28', 'Settings reach what they are for; logging never changes behaviour',
     'Whatever the logging settings, the same packets, messages, calls and polls have the same outcome, the same bytes sent and the same deliveries. Quiet logging turns all logging off, spammy logging everything on unless quiet. Every component uses the settings it is given, and hands them and its handler on to its parts; without any it uses its own defaults.',
     ['configurations', 'inputs'], 'all combinations of the logging flags, decided where the code asks for them, over all kinds of traffic with arbitrary ids and values',
     'Tests run with one logging configuration.',
     ['settings.py', 'message/udpdispatcher.py', 'message/udpdeserializer.py', 'event_queue.py', 'caps.py', 'message_manager.py', 'message/message_handler.py'],
     [('Settings', 'settings.py'), ('__send_message, receive_check', 'message/udpdispatcher.py')],
     'Quiet run and run with arbitrary flags are compared symbolically.')

prop('C29', 'Errors keep their details, are caught by their family and can be shown',
     'Every error of the library keeps the details it is raised with, is caught as its own family and as the base error of the library and as no other error, and its text shows what it is about. Capabilities, hosts, UDP clients and dispatchers can be shown with their names, urls and addresses.',
     ['inputs'], 'every error class, with every detail an arbitrary short text, a number or left out',
     'Tests never look at an error.',
     ['exc.py', 'caps.py', 'network/net.py', 'message/circuit.py'], [('Error', 'exc.py')],
     'Texts of 3 arbitrary bytes.')

prop('C30', 'The network clients send what they are given and report what happened',
     'A datagram is sent once, unchanged, to its host; what is received is returned unchanged with its length and its sender, and later datagrams do not change senders seen before. An HTTP request carries exactly the method, data and headers given, and its answer keeps body, status and headers; HTTP errors become the library\'s error with code, text and body. Nothing is sent to a host without address or port.',
     ['inputs', 'fault_sequences'], 'datagrams and bodies of arbitrary bytes, any port and status code, histories of receptions and failures',
     'Tests talk to one in-process HTTP stub and no socket.',
     ['network/net.py', 'network/stdlib_client.py', 'message/udpdispatcher.py'],
     [('NetUDPClient', 'network/net.py'), ('StdLibClient', 'network/stdlib_client.py')],
     'Datagrams of up to 5 (quick) or 12 (thorough) bytes and two long ones; sockets and urllib2 are stand-ins.')
