#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Received frames do not depend on how TCP cuts the byte stream",
 "The sequence of messages read from a connection is exactly the sequence of frames the gateway wrote, each once and in order, whatever the boundaries at which the bytes arrive: part of a frame, one frame, or many frames per segment, also when the cut falls inside the `##` terminator. Blank characters between frames are ignored.",
 ["inputs","schedules"],"every sequence of well-formed frames and every way of cutting its bytes into segments",
 "The tests deliver one whole ACK frame in one segment; the quantifier ranges over 2^(n-1) segmentations of every stream.",
 ["pyown/protocol/protocol.py"],[("segment decoding, splitting and queueing","OWNProtocol.data_received")],["OWNProtocol.receive_messages","BaseClient.read_message"],
 [("receive buffer","the unfinished frame","pyown/protocol/protocol.py"),("message queue","frames parsed and not yet read","pyown/protocol/protocol.py")])
p("C02","Malformed input is reported, never delivered, and loses nothing before it",
 "Bytes that are not a well-formed frame are never delivered as a message: they make the reception fail with a ParseError (UnicodeDecodeError for non-ASCII bytes), upon which the connection is closed. All the well-formed frames that precede the malformed bytes are still delivered, in order, wherever the segments are cut.",
 ["inputs","fault_sequences"],"every stream made of well-formed frames followed by any malformed bytes, under every segmentation",
 "The tests use two constant garbage chunks and look only at the exception; they never mix garbage with good frames nor cut it.",
 ["pyown/protocol/protocol.py","pyown/messages/base.py"],[("validation of each frame","parse_message"),("error propagation to the transport","OWNProtocol.data_received")],["OWNProtocol.data_received","BaseClient.read_message"])
p("C03","Parsing keeps every frame intact and classifies it by its documented shape",
 "Every frame composed of `*`, digits and `#` and ended by `##` is parsed into a message whose text and bytes are the very same frame; its kind (ACK, NACK, command/status, status request, dimension request, writing or response) and its WHO, WHAT, WHERE, DIMENSION and values are the ones the documented grammar assigns, parameters included. A frame with an unknown WHO or an unknown shape becomes a generic message, and any other string is rejected with a ParseError.",
 ["inputs"],"every string over the frame alphabet (and beyond it) up to the explored length, every shape with any number of parameters and values",
 "The tests parse about ten constant frames; the classification regexes overlap and are order dependent, so only the untested shapes reveal a wrong class.",
 ["pyown/messages/base.py","pyown/messages/dimension.py","pyown/messages/normal.py","pyown/messages/status.py","pyown/messages/ack.py","pyown/messages/nack.py"],[("regex table and dispatch","parse_message"),("per class parse/message","pyown/messages/*.py")],["parse_message","BaseMessage.message","BaseMessage.bytes","BaseMessage.type","BaseMessage.tags"])
p("C04","A message built from tags is a value that survives the wire",
 "A message built through the public constructors serialises to the documented frame, and parsing that frame gives back an equal message of the same kind with the same fields. Two messages are equal exactly when they have the same kind and the same tags, equal messages have equal hashes, every message is hashable, and nothing done with a list or tuple obtained from a message (or given to build it) afterwards changes it.",
 ["inputs","histories"],"every kind of message over the tag domain, all pairs of messages, and every mutation of the containers exchanged with a message",
 "The tests compare an ACK with itself; equality and aliasing need pairs and histories.",
 ["pyown/messages/base.py","pyown/messages/dimension.py","pyown/messages/normal.py","pyown/messages/status.py"],[("__eq__/__hash__/tags","BaseMessage"),("message properties","pyown/messages/*.py")],["BaseMessage.message","BaseMessage.__eq__","BaseMessage.__hash__","BaseMessage.tags"])
p("C05","A received frame is accepted or rejected promptly, whatever its content",
 "The processing time of a frame, valid or not, stays small (well under a second for a frame of two thousand characters) for every repetition pattern of its characters, so no input from the gateway can stall the event loop.",
 ["inputs"],"every pumped string prefix.pump^n.suffix over the frame alphabet within the explored sizes",
 "The tests only parse short valid frames; a backtracking blow-up appears on long almost-valid ones.",
 ["pyown/messages/base.py","pyown/messages/dimension.py","pyown/protocol/protocol.py"],[("message regexes","BaseMessage.pattern and overrides")],["parse_message","OWNProtocol.data_received"])
p("C06","Tags accept exactly the protocol alphabet and decompose without loss",
 "A tag can be built from a string if and only if the string contains only digits and `#` (otherwise InvalidTag, which names it), its text is that string, and value and parameters rejoin to it; adding a parameter appends `#parameter` and nothing else. Tags are equal exactly when their texts are equal, with equal hashes, a tag equals a string or a number exactly when its text is that string or the decimal digits of that number, the WHO accepts exactly the documented codes and has a description for each, and the WHERE address is classified as general, area, light point, group or local bus as documented.",
 ["inputs"],"every string up to the explored length over the tag alphabet and over foreign characters, every WHO code, every documented WHERE address",
 "The tests use a handful of constant tags; WHERE types are not tested at all.",
 ["pyown/tags/base.py","pyown/tags/who.py","pyown/tags/where.py","pyown/tags/what.py","pyown/tags/dimension.py"],[("is_valid_tag","pyown/tags/base.py"),("TagWithParameters","pyown/tags/base.py"),("Where.type","pyown/tags/where.py")],["Tag","TagWithParameters","Who","Where.type"])
p("C07","The OPEN password answer is the one the gateway computes",
 "For every numeric password and every nonce, given as strings or integers, the calculated answer equals the one of the OPEN algorithm: each nonce digit applies its fixed 32-bit transformation to the password, in order, and the result is its unsigned decimal value.",
 ["inputs"],"every numeric password below 2^32 and every digit sequence as nonce",
 "One password/nonce pair is tested, with which most of the ten digit operations and bit positions can be wrong undetected.",
 ["pyown/auth/open.py"],[("digit operations","own_calc_pass")],["own_calc_pass"])
p("C08","The HMAC credentials follow the documented construction",
 "For every pair of keys, password and both algorithms, the client string is SHA(Ra Rb A B SHA(password)) and the server string SHA(Ra Rb SHA(password)) over the hex texts; the conversion of hex strings to decimal digit pairs and back is exact and invertible, with malformed digit strings rejected; two credentials compare equal only if identical. Generated client keys are hex strings of the length of the digest, and not repeated.",
 ["inputs"],"all keys of both sizes over the explored patterns, all nibble strings up to the explored length, alphanumeric passwords",
 "No test covers the module.",
 ["pyown/auth/hmac.py","pyown/auth/enum.py"],[("digests","client_hmac, server_hmac"),("encoding","hex_to_digits, digits_to_hex"),("key","create_key")],["client_hmac","server_hmac","hex_to_digits","digits_to_hex","compare_hmac","create_key"])
p("C09","start() succeeds only through a documented handshake and sends only its frames",
 "start() connects to the host and port the client was given, on the event loop it was given, if any. Whatever the gateway answers, it returns normally if and only if the dialogue is one of the documented ones completed with the right credentials (no authentication, OPEN, HMAC sha1, HMAC sha2, the server proof verified), and at every step the client sends exactly the documented frame for its session type, password and the challenges received, nothing more. Every other dialogue ends with InvalidAuthentication (preceded by a NACK for an unknown HMAC algorithm) or, when the gateway is silent, unreachable or disconnects, with TimeoutError within a bounded time.",
 ["histories","fault_sequences"],"every script of gateway answers, disconnections and silences, for every session type and all three credential schemes",
 "No test performs a handshake.",
 ["pyown/client/base.py","pyown/client/session.py","pyown/auth/hmac.py","pyown/auth/open.py"],[("handshake","BaseClient.start, _authenticate_open, _authenticate_hmac")],["BaseClient.start","bytes written to the transport"],[("handshake step","which answer is expected next","pyown/client/base.py")])
p("C10","Operations are allowed only in the session state that supports them",
 "Over any sequence of operations, sending a message or reading one before start or after close raises InvalidSession, sending without force or issuing an item command on an event session raises InvalidSession and puts nothing on the wire, and running the event loop on a command session or while not connected raises InvalidSession; a start that failed leaves the client as before it, with no connection open; close() is always possible and closes the connection. While start() is in progress, whatever another task tries (sending, reading, a command, the event loop) is refused with InvalidSession, puts nothing on the wire and does not disturb the handshake. The operations allowed in the current state work, and a forced message is sent on any started session.",
 ["histories","configurations"],"every sequence of operations up to the explored depth, for the three session types; every operation by another task at every moment of a start()",
 "No test uses a client; the guarantee is about sequences of operations.",
 ["pyown/client/base.py","pyown/client/client.py"],[("session checks","BaseClient.send_message, read_message, Client.loop")],["BaseClient.send_message","BaseClient.read_message","Client.loop","BaseClient.close"],[("protocol/transport","present only between start and close","pyown/client/base.py")])
p("C11","The outcome of a command is decided by the gateway's answer",
 "An item command completes normally if and only if the gateway answers ACK; any other answer raises ResponseError. A status or dimension request yields exactly the answers received, in order, once the closing ACK arrives; a NACK or an answer of another kind raises ResponseError, no answer raises TimeoutError, and a request for a single dimension returns the first answer, or raises ResponseError when it gets only ACK. The outcome is told as soon as the closing ACK or NACK arrives. After an exchange the gateway completed, the next command is judged only by its own answers, even if the previous results were not consumed.",
 ["histories","fault_sequences"],"every script of answers up to the explored length, every sequence of commands, every kind of item request",
 "No test exchanges a command.",
 ["pyown/items/base.py","pyown/items/camera/camera.py"],[("send_* methods","BaseItem"),("_check_ack/_check_nack","BaseItem")],["BaseItem.send_normal_message","BaseItem.send_status_request","BaseItem.send_dimension_request","BaseItem.send_dimension_writing"])
p("C12","Concurrent commands on one client get their own answers",
 "When several tasks use items of the same client at the same time, under every interleaving of their steps and of the arrival of the answers, each command gets exactly the answers to its own frame, each command frame is sent exactly once, and no command starts before the previous one got its last answer. All the commands complete when the gateway answers all of them.",
 ["schedules"],"every interleaving of 2 to 4 concurrent commands with the arrival of the (segmented, delayed, multi-frame) answers",
 "The property is about schedules; there is no concurrent test.",
 ["pyown/items/base.py","pyown/client/base.py"],[("exchange lock","BaseClient.exchange_lock"),("message queue","OWNProtocol")],["results of the item methods","bytes written to the transport"])
p("C13","Writing respects the back-pressure of the transport and never hangs or loses",
 "While the transport has paused the writing nothing is written; every message sent while it was paused is written, whole and exactly once, after the writing resumes, and the messages of one task keep their order. If the connection is lost while the writing is paused, the pending and later sends terminate instead of waiting forever. A message whose sending had completed still reaches the gateway when the client is closed before the gateway has read it.",
 ["schedules","fault_sequences"],"every interleaving of sends by up to 3 tasks with pauses, resumes and the loss of the connection",
 "No test sends a message or pauses the writing.",
 ["pyown/protocol/protocol.py"],[("write gate","OWNProtocol.pause_writing/resume_writing/send_message/connection_lost")],["transport.write"],[("write lock","locked while the writing is paused","pyown/protocol/protocol.py")])
p("C14","Every event reaches exactly its callbacks, once, on the right item",
 "For every sequence of event frames on an event session, each callback registered for the kind of an event is called exactly once per such event, with the item at that WHO and WHERE (always the same object for the same address, bound to the client given to the loop) and the decoded arguments, events being dispatched in arrival order, and no other callback is called. Acknowledgements, unknown or unsupported frames, events with invalid values or addresses and callbacks that raise or never finish do not prevent the remaining callbacks and the later events from being served.",
 ["histories","fault_sequences"],"every sequence of events up to the explored length over all item kinds and faulty frames, with any mix of failing or blocking callbacks",
 "No test dispatches an event.",
 ["pyown/client/client.py","pyown/items/utils.py","pyown/items/base.py","pyown/items/lighting/base.py","pyown/items/automation/automation.py","pyown/items/camera/camera.py","pyown/items/gateway/gateway.py","pyown/items/energy/energy.py"],[("event loop and dispatch","Client.loop, Client._dispatch_callbacks"),("call_callbacks of each item","pyown/items")],["user callbacks"])
p("C15","The event loop ends when the connection ends, after serving what it received",
 "For every moment at which the gateway drops the connection (orderly or with an error) or the client is closed (by another task or by a callback), the running event loop terminates promptly instead of waiting forever or failing with an internal error. All the events received before the connection was dropped are dispatched before it terminates, and it never terminates while the connection is alive.",
 ["crash_points","schedules"],"every position of the drop or close relative to the arrival and dispatch of the events",
 "No test runs the loop.",
 ["pyown/client/client.py","pyown/client/base.py","pyown/protocol/protocol.py"],[("loop condition","Client.loop"),("connection end future","OWNProtocol.connection_lost")],["completion of Client.loop","user callbacks"])
p("C16","The client keeps one item per address, of the right class",
 "Over any sequence of item requests and received events, the same WHO and WHERE give the same object and different addresses give different objects; the item has the class of its WHO (light, automation, camera, gateway, energy), the requested address, and the client with which it was first requested. A WHO without a class raises KeyError and an address the class does not support raises InvalidTag, without affecting the other items.",
 ["histories"],"every sequence of requests and events up to the explored depth over supported and unsupported addresses, two clients",
 "No test calls it; identity is a property of histories.",
 ["pyown/client/client.py","pyown/items/utils.py"],[("item cache","Client.get_item")],["Client.get_item"],[("items","the cache","pyown/client/client.py")])
p("C17","Light and dimmer commands send exactly the documented frame or nothing",
 "Each command of a light or dimmer sends exactly one frame, the one documented for that action, address and arguments (level steps, speeds, hue, saturation, value, white temperature, timers, brightness with speed), with the WHO the item was given, if any. Arguments outside the range the method documents are refused with an error before anything is sent, and every value inside it is accepted (hours above 23 of a timer, and out-of-range arguments of set_brightness_with_speed, are not claimed).",
 ["inputs"],"every command method, every integer argument in and around the documented ranges, all address forms",
 "No test issues a lighting command; ranges need every boundary.",
 ["pyown/items/lighting/base.py","pyown/items/lighting/light.py","pyown/items/lighting/dimmer.py","pyown/items/base.py"],[("command methods","Light, Dimmer"),("WhatLight","pyown/items/lighting/base.py")],["bytes written to the transport"])
p("C18","Light states and events are decoded to the documented meaning",
 "Every status or dimension answer about a light is reported for the address it names with its exact values: on/off, level in percent, brightness and speed, hue/saturation/value, white temperature, timer, working hours, each obtained with the documented request. The events of the same dimensions reach only the callbacks of that quantity with the same values, and a status event is reported as on for ON and every dimmer level, off for OFF.",
 ["inputs"],"every status code and every value in the documented ranges, several addresses per answer",
 "No test decodes a light answer.",
 ["pyown/items/lighting/base.py","pyown/items/lighting/light.py","pyown/items/lighting/dimmer.py"],[("get_status/request methods","Light, Dimmer"),("call_callbacks","BaseLight")],["values yielded","callback arguments"])
p("C19","Automation and camera commands and events have their documented meaning",
 "Each automation and camera command sends exactly one frame, the documented one, with or without the address as documented and with the WHO the item was given, if any, and invalid dial coordinates are refused before anything is sent. The automation state is reported for the address and state named by each answer, and each automation or camera event calls its callbacks once with the item and the state it carries.",
 ["inputs"],"every command, every dial coordinate in and around the range, every state, several addresses",
 "The camera tests only build two constant messages by hand; nothing exercises the commands.",
 ["pyown/items/automation/automation.py","pyown/items/camera/camera.py"],[("commands","Automation, Camera"),("call_callbacks","Automation, Camera")],["bytes written to the transport","callback arguments"])
p("C20","The date and time set on the gateway are the ones it will read back",
 "Setting the time, the date or the date and time sends one writing frame in the documented format (two-digit fields, four-digit year, correct day of the week, three-digit zone), and reading that frame back gives the value that was set. Every whole-hour zone offset is supported with its sign, and a value without a zone is refused before anything is sent.",
 ["inputs"],"every time of day, every date of the calendar range, every whole-hour offset",
 "No test covers the gateway item; weekday, padding and sign errors appear only for particular values.",
 ["pyown/items/gateway/gateway.py"],[("set_*/get_* pairs","Gateway"),("zone conversion","Gateway")],["bytes written to the transport","returned values"])
p("C21","Gateway information is decoded exactly, for requests and for events",
 "Each gateway request sends its documented frame and returns the decoded answer: time, date, date and time (a zone that is not set is UTC), addresses as dotted decimal, MAC address as six hexadecimal octets, network, model, uptime, firmware, kernel and distribution versions (the fields as sent, joined by dots). The same frame received as an event, or as a writing by someone else, calls the callbacks registered for that quantity exactly once with the item and that same single value, and no others.",
 ["inputs"],"every quantity over its value range, as answer, response event and writing event",
 "No test covers the gateway item.",
 ["pyown/items/gateway/gateway.py"],[("get_* methods","Gateway"),("call_callbacks","Gateway")],["returned values","callback arguments"])
p("C22","Energy addresses are typed and energy commands send the documented frame",
 "An energy item can be created exactly for the documented address forms, with the documented type, and a Stop&Go item only for a Stop&Go address; any other address raises InvalidTag. Each energy and Stop&Go command or request sends exactly one frame, the documented one with its parameters in the documented order, the current local day, month and year, all of the same instant, being used when omitted. (Out-of-range numbers in addresses and parameters are not claimed.)",
 ["inputs"],"every address up to the explored length, every command with every parameter value in its range",
 "No test covers the energy items.",
 ["pyown/items/energy/energy.py","pyown/items/energy/stop_go.py","pyown/items/energy/enums.py"],[("get_type","EnergyManagement"),("commands","EnergyManagement, StopGo")],["bytes written to the transport","constructor outcome"])
p("C23","Energy measures are decoded exactly, for requests and for events",
 "Each energy request returns the value, date or actuator state carried by the gateway's answer. Each energy event calls the callbacks registered for its quantity, and no others, exactly once with the item and the documented arguments in the documented order (totalizer number, day, month, year, hour, date of reset, energy).",
 ["inputs"],"every measure dimension over its parameter and value ranges, all 2^6 actuator states",
 "No test covers the energy items.",
 ["pyown/items/energy/energy.py","pyown/items/energy/enums.py","pyown/items/energy/dataclass.py"],[("get_* methods","EnergyManagement"),("call_callbacks","EnergyManagement")],["returned values","callback arguments"])
p("C24","The Stop&Go status tells exactly the bits the device reports",
 "For every one of the 2^13 status masks, and for every individual status answer, the reported status has each condition set exactly when its documented bit is set, and the conditions not reported in answer to that request are left unknown, whatever was asked before with the same item. Requests and events agree on every mask.",
 ["inputs"],"all 8192 masks as answer and as event, all subsets of individual answers",
 "No test covers it; a swapped or shifted bit shows only for masks that distinguish the two bits.",
 ["pyown/items/energy/stop_go.py","pyown/items/energy/energy.py","pyown/items/energy/dataclass.py"],[("request_status","StopGo"),("status event","EnergyManagement.call_callbacks")],["StopGoStatus fields"])
p("C25","Reading with a timeout neither loses nor duplicates nor delays messages",
 "For every schedule of message arrivals and of reads with finite or no timeout, a read returns the oldest unread message as soon as one is available, raises TimeoutError when its timeout elapses without one (and not before, nor much after), and a read without timeout waits as long as needed. A timed-out or cancelled read consumes nothing: the messages arriving later are returned to the following reads, in order, each once.",
 ["schedules","histories"],"every interleaving of arrivals, timeouts and cancellations up to the explored depth, in virtual time",
 "No test reads from a client; the races between timeout and arrival need controlled time.",
 ["pyown/client/base.py","pyown/protocol/protocol.py"],[("timed read","BaseClient.read_message"),("queue","OWNProtocol.receive_messages")],["BaseClient.read_message"])
p("C26","A client can be started again, free from its former connection",
 "After the connection of a client has ended in any way (closed, dropped, reset, malformed input) or start() has failed in any way (refused, unreachable, silent, cancelled), start() can be called again, any number of times, and the new session behaves like a first one: same handshake, only messages of the new connection are read, commands and the event loop work until the new connection ends, and the items obtained before keep working on it. Nothing of the former connection (partial frame, unread messages, paused writing, its late end, operations still in progress) affects the new one, no former connection stays open, and no operation of a former session gets anything of the new one. A start() still in progress when the client is closed, or started again, by another task fails and leaves no connection open, and the later start() is the one that counts.",
 ["histories","fault_sequences","schedules"],"every sequence of up to 3 sessions over the ways a session is left and ends, every interleaving of an end and an immediate restart",
 "No test starts a client; leaks between connections need histories of several sessions.",
 ["pyown/client/base.py","pyown/client/client.py","pyown/protocol/protocol.py"],[("connection set-up and teardown","BaseClient.start, BaseClient.close"),("loop condition","Client.loop")],["BaseClient.start","BaseClient.read_message","item commands","Client.loop","bytes written to each transport"],
 [("connection futures","start and end of the current connection","pyown/client/base.py")])
p("C27","An interrupted command leaves the connection usable and in step",
 "A command that is cancelled at any moment, that is not answered in time, or that gets an unexpected answer gives up its turn: the other commands are still sent, each once, and end. A command cancelled before its frame was sent never sends it and affects nobody. What was received before a command is sent (late answers to an interrupted command, unread messages) is never taken for its answer, so once everything owed to the interrupted command has arrived, the following commands get exactly their own answers.",
 ["schedules","fault_sequences","histories"],"every kind of command interrupted at every point (cancellation, caller's or own timeout, unexpected answer at any position, paused writing), alone or among 2 to 4 concurrent ones",
 "No test exchanges a command, let alone cancels one in the middle.",
 ["pyown/items/base.py","pyown/items/camera/camera.py","pyown/client/base.py"],[("exchange lock","BaseClient.exchange_lock"),("send_* methods","BaseItem")],["results of the item methods","bytes written to the transport"])
p("C28","The clients of one program work together without disturbing each other",
 "An event loop given a command client hands out items with which the callbacks can send commands: each is sent once, on the command connection only, and judged by its own answer, while the events go on being dispatched, in order and each once, without waiting for those commands. On a loop without a command client such a command raises InvalidSession, sends nothing and loses no event. An item given another client sends its commands on that one, and only there. Two clients never share messages, turns, challenges or faults: whatever happens to one connection (end, malformed input, paused writing, silence, refused handshake), the other one's handshake, commands, reads and loop proceed as if it were alone.",
 ["schedules","fault_sequences"],"every interleaving of events, segmented answers and faults over two connections, for every pair of session types",
 "No test uses a client; the documented way of using the library needs two of them at once.",
 ["pyown/client/client.py","pyown/client/base.py","pyown/protocol/protocol.py","pyown/items/base.py"],[("dispatch","Client.loop, Client._dispatch_callbacks"),("per client state","BaseClient, OWNProtocol")],["user callbacks","results of the item methods","bytes written to each transport"])
p("C29","Long use accumulates nothing",
 "However many times events are served, commands and requests are exchanged with any outcome (accepted, refused, unanswered, unexpected, cancelled), reads time out or are cancelled, the writing is paused and resumed, the event loop is ended and run again, and clients are closed, lose their connection or fail to start and are started again, what the program holds does not grow with the number of repetitions: when everything is idle no task, timer or open connection of what is over remains, and the memory in use stays bounded. (Items are kept, one per address, and so are registered callbacks and callbacks that never finish.)",
 ["histories"],"every cycle of one or two (three) activities of a set of 45, repeated hundreds of times on the same clients",
 "The tests never run anything twice; a leak is visible only over a long history.",
 ["pyown/client/client.py","pyown/client/base.py","pyown/protocol/protocol.py","pyown/items/base.py","pyown/messages/base.py"],[("reader tasks","Client.loop"),("dispatch tasks","Client._dispatch_callbacks"),("connection futures","BaseClient.start"),("message queue and buffer","OWNProtocol")],["asyncio tasks and timers","open transports","allocated memory"])
p("C30","The end of the connection ends the commands in progress",
 "Whatever commands and timed reads are in progress or waiting for their turn when the client is closed, the gateway drops the connection (orderly or with an error, with or without answers still on their way) or sends malformed bytes, at any moment: all of them end, in a time bounded by their own timeouts. A command whose answers had not all arrived never ends normally nor with part of the answers, but with TimeoutError or InvalidSession; one whose answers had all arrived before the gateway dropped the connection ends with exactly that outcome. close() does not wait for them, nothing is sent after it, and a new start() gives a working session.",
 ["schedules","fault_sequences"],"every end at every moment of 1 to 4 concurrent commands and reads of 12 kinds, the gateway being prompt, slow or mute, the writing paused or not",
 "No test issues a command; what happens to it when the connection ends depends on the interleaving.",
 ["pyown/client/base.py","pyown/items/base.py","pyown/protocol/protocol.py"],[("teardown","BaseClient.close, OWNProtocol.connection_lost"),("exchanges","BaseItem.send_normal_message, send_status_request, send_dimension_request")],["item commands and requests","BaseClient.read_message","BaseClient.close","bytes written to the transport"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
