# writes properties.jsonl (kept as source so that statements are edited in one place)
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
DRV="cfg(fix_verif): harness entry point in src/main.rs, because the crate is a binary without a library target"
MS='src/message.rs'; DD='src/data_dictionary.rs'; SS='src/session/session_settings.rs'; SI='src/session/session_id.rs'
SC='src/session/session_schedule.rs'; NW='src/network.rs'; AC='src/io/acceptor.rs'; SE='src/session/session_and_state.rs'

prop('C01','Any received text is parsed or rejected, never a crash',
 'For every text and every loaded dictionary, parsing the text as a FIX message either yields a message or a session reject reason, and deriving a session identity from the text yields an identity. Neither ever panics, hangs, or uses memory out of proportion to the length of the text (for example because of the number a repeating group claims to have).',
 ['inputs'],'all texts (empty, truncated, unterminated, arbitrary tags, counts up to 2^32-1, non ASCII), all dictionaries',
 'The tests parse four well-formed messages; no malformed text is ever tried.',
 [MS],[('field splitting and tag parsing','Message::from_str'),('section parsers','parse_header, parse_body, parse_trailer, parse_group'),('identity extraction','extract_field_value, Message::get_session_id, Message::get_reverse_session_id')],
 observe=['result of Message::from_str','result of Message::get_session_id / get_reverse_session_id','process exit'],hook=DRV)
prop('C02','An accepted message carries exactly the fields that were received',
 'When a text is accepted, the message contains every field of the text exactly once, with its tag and its value unchanged, in the section (header, body, trailer) or repeating group instance in which it was received, and contains nothing else. A text in which a tag occurs twice in the same section or in the same group instance is rejected rather than having one of the occurrences dropped.',
 ['inputs'],'all accepted texts under all dictionaries, including nested groups and fields unknown to the dictionary',
 'The tests read back a handful of chosen fields from four messages; lost, merged or misplaced fields elsewhere go unnoticed.',
 [MS],[('field placement','parse_header, parse_body, parse_trailer, parse_group'),('field storage','FieldMap::set_field, set_group')],
 state=[('FieldMap','tag to value map plus groups of one section or instance',MS)],observe=['FieldMap::get_field','FieldMap::get_group','Display of Message'],hook=DRV)
prop('C03','Repeating groups match their declared count, delimiter and field order',
 'A message is accepted only if every repeating group known to the dictionary, at any nesting depth, has a numeric count equal to the number of its instances (zero included), every instance starts with the delimiter field of the group, and the plain fields of an instance that follow one another come in dictionary order; the first field that does not belong to the group ends it and is handled by the enclosing group or section. Such groups are accepted, and after acceptance the group reports as many instances as were declared, each holding its own fields and subgroups.',
 ['inputs'],'all group layouts: any counts, any instance contents, any nesting, groups in header, body and trailer, groups whose delimiter is itself a group, all dictionaries',
 'The tests contain three well-formed groups and not a single malformed one.',
 [MS],[('group parser','parse_group'),('instances','FieldMap::set_group, Group')],
 state=[('declared and actual count, last field position','progress through one group','parse_group')],observe=['Message::from_str','Group::size','Group index'],hook=DRV)
prop('C04','Header, body and trailer are enforced in that order',
 'A text is accepted only if its first three fields are BeginString, BodyLength and MsgType in that order, and it consists of header fields, then body fields, then trailer fields, as the dictionary defines header and trailer. A header field after the body has begun, or any non trailer field after the trailer has begun, is rejected as out of order; every field the dictionary lists for neither header nor trailer belongs to the body.',
 ['inputs'],'all sequences of header, body and trailer fields and groups, all message types, all dictionaries',
 'No test has a misplaced field.',
 [MS],[('section order','parse_header, parse_body, parse_trailer')],observe=['Message::from_str','sections of the Message'],hook=DRV)
prop('C05','The reject reason names the first fault of the message',
 'A text with a fault is rejected, and for the right reason: text-level faults come first, the leftmost one deciding (a field without "=" or whose tag is not a number: invalid tag; an empty value: tag without value), then the leftmost structural fault (out-of-order section, repeated tag, non numeric group count: incorrect data format, group field before the delimiter: required tag missing, group fields out of order, wrong number of instances). A text without any of these faults is accepted.',
 ['inputs'],'all texts with one or several faults at any position',
 'No test checks a reject reason.',
 [MS,'src/quickfix_errors.rs'],[('text-level checks','Message::from_str'),('structural checks','parse_header, parse_body, parse_trailer, parse_group')],observe=['SessionRejectError'],hook=DRV)
prop('C06','A message is written in a layout a FIX peer can read',
 'However a message was built or received (the field order of its header and trailer being left alone), its text has BeginString, BodyLength and MsgType (those that are set) first and in that order, all header fields before all body fields before all trailer fields, SignatureLength (93) before Signature (89) in the trailer, and CheckSum last. Every group count field is directly followed by its instances in order, each instance starts with the delimiter field and lists fields with a configured order in that order, and every set field is written exactly once as tag=value followed by SOH.',
 ['histories','inputs'],'all histories of setting fields and groups in the header, body, trailer and group instances',
 'No test ever writes a message.',
 [MS],[('write order','FieldMapIter::fieldmap_to_vec, FieldMap::field_order, Message::new, FieldMap::set_group'),('text form','Display of StringField, FieldMap, Message')],observe=['Display of Message'],hook=DRV)
prop('C07','BodyLength and CheckSum of a finished message are correct',
 'After the body length and then the checksum of a message have been set, BodyLength equals the number of bytes of its text after the BodyLength field up to the CheckSum field, and CheckSum is the three digit sum modulo 256 of all bytes before the CheckSum field, whatever fields, groups and non ASCII values it holds and however often the two were set before.',
 ['histories','inputs'],'all messages and all histories of edits and recomputations',
 'No test calls either function.',
 [MS],[('byte counting','Message::calc_body_len, set_body_len'),('byte sum','Message::calc_checksum, set_checksum')],observe=['Display of Message'],hook=DRV)
prop('C08','Writing a message and parsing it again gives the same message',
 'For every message whose sections and group instances hold fields as the dictionary defines them, the instances having the field order of the dictionary, parsing the text it is written as succeeds and gives a message with the same sections, fields, groups and instances; and writing an accepted message again gives a text with the same content.',
 ['inputs','histories'],'all dictionary conformant messages, built through the API or parsed, with nested groups',
 'No test writes a message, so nothing relates writer and parser.',
 [MS],[('writer','Display of Message'),('parser','Message::from_str')],observe=['Display of Message','Message::from_str'],hook=DRV)
prop('C09','Every section and group instance is an independent map of fields',
 'Getting a field gives the value last set for that tag in exactly that section or group instance, converted to the requested type, or an error if it was never set or does not convert; setting a group gives it exactly the stated number of fresh instances and sets its count field. No operation changes any other field, section, instance or clone.',
 ['histories'],'all histories of set, get, set group, edit instance, clone over all sections and nested instances',
 'The tests only read fields of freshly parsed messages.',
 [MS],[('map operations','FieldMap::set_field, get_field, set_group, get_group'),('instances','Group index, add_group')],observe=['FieldMap::get_field','FieldMap::get_group','Group::size'],hook=DRV)
prop('C10','A message is attributed to the session with its identifiers',
 'The identity derived from an incoming message consists of its BeginString and its comp, sub and location ids with sender and target swapped (absent or empty sub and location ids count as not set), and the identity of an outgoing message is the same without the swap; values are found wherever in the header the fields stand. It equals, and finds in a map, the identity of a configured session exactly when all seven parts are equal.',
 ['inputs','configurations'],'all identifier combinations of messages and configured sessions, all header field orders',
 'No test builds, compares or derives a session identity.',
 [MS,SI],[('identity from text','extract_field_value, get_session_id, get_reverse_session_id'),('identity from settings','SessionId::from_map, SessionIdBuilder::build'),('equality and hash','SessionId')],observe=['SessionId equality','HashMap lookup by SessionId','SessionId accessors'],hook=DRV)
prop('C11',"A setting is the session's own value, else the default",
 "Every session section of a configuration yields a session whose identity uses the section's own identifiers and otherwise those of the default section, and reading a setting for a session with fallback gives the section's value if it has one, else the default section's, else none; reading without fallback gives only the section's own value. Values never leak between sessions, and text layout (blank lines, spaces, quotes, order of keys) does not matter.",
 ['configurations'],'all configurations with a default section and any number of session sections setting any subset of keys',
 'Three of the five settings tests have an empty body, the other two only check panics.',
 [SS,SI],[('section parser','Properties::from_str, parse_table'),('lookup','get_property, get_optional_config, get_or_default_config, get_config, get_default_config'),('identity','SessionId::from_map')],
 state=[('session_settings','settings by session identity',SS)],observe=['Properties::session_ids','Properties getters'],hook=DRV)
prop('C12','An unusable configuration is refused when it is loaded',
 'Loading a configuration fails if it has no default section, two of them, or a session section before it, if the connection type is missing or neither acceptor nor initiator, or if any session, defaults included, lacks a comp id or a begin string of FIX 4.2, 4.3 or 4.4, an acceptor session a valid port, or an initiator session a host and a valid port. Every configuration without such a fault loads.',
 ['configurations'],'all configurations with any subset of mandatory settings, valid and invalid values, section orders',
 'The tests cover a missing default section and a missing connection type only.',
 [SS],[('section parser','Properties::from_str'),('validation','Properties::check, SessionId::from_map')],observe=['Properties::from_str'],hook=DRV)
prop('C13','A session is in session exactly within its scheduled window',
 "At every instant a session schedule is open exactly if the wall clock in the schedule's time zone is within the window, both ends included: any time if no times are configured, from start time to end time every day (over midnight if the end is earlier), or once a week from start day and time to end day and time (over the week end, or for a whole week, if the end comes first). This holds on days of a daylight saving change too, and a schedule with only one of the two times or only one of the two days is refused when it is created.",
 ['configurations','inputs'],'all schedules and time zones at all instants',
 'The only test of the schedule asserts on the current time of day and is excluded; is_session_time is never called.',
 [SC],[('window check','SessionSchedule::is_session_time, is_current_time_between'),('creation','SessionSchedule::create_schedule')],observe=['SessionSchedule::is_session_time'],hook=DRV+'; the harness replaces clock_gettime in its own process')
prop('C14','The dictionary knows exactly the fields each message may and must have',
 'After loading an XML dictionary, a message type (or header, trailer) has exactly the fields listed for it directly, through components at any depth, and as count fields of its groups, and requires exactly those that are required where listed, where for a field or group inside a component the component itself must be required there too. Fields inside groups are not fields of the message, and every field has the type and the enumerated values the XML gives it.',
 ['configurations'],'all dictionaries: any nesting of components, groups and fields with any required flags; the shipped FIX 4.3 dictionary in full',
 'The tests use some twenty hand-written dictionaries; for the shipped dictionary they check direct fields only.',
 [DD],[('loading','add_xml_message, add_xml_component, set_field_for, add_fields_and_values'),('lookup','is_msg_field, is_msg_req_field, get_msg_fields, get_msg_required_field, get_field_type, get_field_values')],
 state=[('msg_fields, msg_required_fields','fields by message type',DD)],observe=['DataDictionary lookups'],hook=DRV)
prop('C15','The dictionary knows the layout of every repeating group',
 'After loading an XML dictionary, every group of every message, header and trailer included and at any depth of groups and components, is known under its count field with its first field as delimiter, exactly its own fields in the order listed (components expanded in place), its subgroups, and its required fields: those required where listed, if also the group is required there (for a field in a component: if the component is required there). Nothing is a group of a message that does not list it.',
 ['configurations'],'all dictionaries as for C14; the shipped FIX 4.3 dictionary in full',
 'The tests use hand-written dictionaries of at most two levels; the groups of the shipped dictionary are not checked.',
 [DD],[('loading','add_xml_group, add_xml_component'),('lookup','is_msg_group, get_msg_group, get_ordered_fields, GroupInfo::delimiter')],
 state=[('groups, fields_order','group information by message type and count field',DD)],observe=['DataDictionary::get_msg_group','GroupInfo'],hook=DRV)
prop('C16','A faulty dictionary is refused with the fault it has',
 'Loading a dictionary that repeats a field name or number, an enumerated value of a field, a message name or type, or a field within one message or one group, that lacks a mandatory attribute, a section, or a field or component it refers to, has a field number that is not a number, or an unknown element in a message, group or used component, fails with an error of the corresponding kind. Every dictionary without such a fault (and without components containing themselves) loads.',
 ['configurations','fault_sequences'],'all single and multiple faults at all positions of all dictionaries',
 'The tests cover nine single faults at one position each.',
 [DD,'src/quickfix_errors.rs'],[('checks while loading','set_field_name_number_type, set_msg_name_type_cat, set_field_for, get_attribute, get_number_attr, lookup_node, get_field_values')],observe=['DataDictionary::from_str','XmlError'],hook=DRV)
prop('C17','Every well-formed message is delivered once, in order, to its session',
 "Every complete well-formed message a client writes for a configured session on any port is handed to the application exactly once, unchanged and with that session's identity, and the messages of one connection are handed over in the order written. This holds however the bytes are split into segments or run together, how many connections are active, and whatever the message contains.",
 ['schedules','inputs','histories'],'all interleavings of connections, all segmentations, all message contents and burst lengths (text is UTF-8 without SOH inside values)',
 'network.rs and io/ have no tests.',
 [AC,NW],[('framing','read_message'),('queue to the application','start_socket_listener_task, start_receiver_task'),('routing','Message::get_reverse_session_id, SessionMap')],
 state=[('socket_to_app queue','complete messages on their way to the application',NW)],observe=['Application::from_app'],hook=DRV)
prop('C18','Bad input is not delivered and does not disturb anybody',
 'A message that cannot be parsed, belongs to no configured session, or is cut off by a disconnect is never handed to the application, and after it the messages of all connections, the same one included if it is still open, are delivered as if it had not been sent. No sequence of client actions (bad messages, connects, disconnects at any point, not reading replies) ever stops the service of other clients.',
 ['schedules','inputs','fault_sequences'],'all interleavings of bad input, disconnects and good traffic over several connections and ports',
 'network.rs and io/ have no tests.',
 [AC,NW,SE],[('containment','start_receiver_task, Session::sync_send_to_target'),('end of connection','read_message, start_socket_listener_task')],observe=['Application::from_app','client sockets'],hook=DRV)
prop('C19','Every message sent to a session reaches its client once, in order',
 "Every message the application sends to a session while a client of that session is connected is written to that client's connection exactly once and byte for byte as the message is written as text, and the messages sent to one session arrive in the order sent. This holds from the reply to the very first message of a connection, and also after the client has reconnected.",
 ['schedules','histories'],'all interleavings of sends, connects, reconnects over several sessions and ports',
 'network.rs and io/ have no tests.',
 [AC,NW,SE],[('sending','Session::sync_send_to_target'),('responder per session','SocketAcceptor::start_accepting_connections, set_session_responder'),('writing','start_app_listner_task')],
 state=[('broadcast channel','outgoing messages of one port',AC)],observe=['bytes read by the client'],hook=DRV)
prop('C20','A message sent to one session is not sent to clients of other sessions',
 'A message the application sends to a session is never written to a connection whose client belongs to another session, neither on another port nor on the same one.',
 ['schedules','configurations'],'all configurations of sessions over ports, all connection orders and interleavings',
 'network.rs and io/ have no tests.',
 [AC,NW,SE],[('responder per session','SocketAcceptor::start_accepting_connections, set_session_responder'),('broadcast per port','IoAcceptor::create, start_app_listner_task')],observe=['bytes read by every client'],hook=DRV)
prop('C21','Every client gets served, and one that leaves costs nothing',
 'Every client that connects to a configured port at any time after it was opened gets connected and served, however many clients connect at once, have connected before, or are connected to the same or other ports, and also if the port was in use at first and becomes free later; it is waited for without keeping a processor busy. A client that has left, at whatever point of a message, causes no further work and holds no socket.',
 ['schedules','histories','fault_sequences'],'all orders of connects and disconnects over several ports, including simultaneous ones and ports that are busy at first',
 'network.rs and io/ have no tests.',
 [AC,NW],[('accept loop','IoAcceptor::start'),('one acceptor per port','SocketAcceptor::start_accepting_connections'),('end of connection','read_message, start_socket_listener_task')],observe=['client connects','CPU time of the process after disconnects and while a port is in use','number of clients served under a limit of open files'],hook=DRV)
prop('C22','The sending time of a message is the time it was stamped',
 'Stamping a message sets SendingTime (52) in its header to the current UTC date and time as YYYYMMDD-HH:MM:SS.sss, with the milliseconds cut off and not rounded and every part at its full width, in place of any earlier value and whatever the local time zone is; nothing else in the message changes.',
 ['inputs','histories'],'all instants of the years 1970 to 9999, all headers stamped once or several times',
 'No test stamps a message; one that did could only compare with the clock it runs under.',
 [MS],[('stamping','Message::set_sending_time')],observe=['FieldMap::get_field','Display of Message'],hook=DRV+'; the harness replaces clock_gettime in its own process')
prop('C23',"What a client writes is read with its session's dictionary, end to end",
 "For every sequence of bytes a client writes, the application is handed exactly the messages obtained by cutting the bytes after every CheckSum field and reading each piece with the dictionary of the session its header names: the dictionary the session's configuration names, else the default section's, else the shipped FIX 4.3 one. Pieces that name no configured session, or that this dictionary rejects, are left out; everything else is handed over in order, with the identity of its session and all its fields in their sections and group instances.",
 ['inputs','configurations','schedules'],'all byte sequences (valid, malformed, misplaced and mixed), all segmentations, all configurations of sessions, ports and dictionaries',
 'network.rs and io/ have no tests; no test loads a dictionary by way of a configuration.',
 [AC,NW,SE],[('cutting','read_message'),('attribution','start_receiver_task'),('dictionary of a session','Session::with_settings')],
 state=[('data_dictionary','dictionary of a session',SE)],observe=['Application::from_app'],hook=DRV)
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
