#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

N = "include/nbdl/"
W = N + "websocket/detail/"

prop("C01", "Base64 encoding is canonical RFC 4648 and decoding inverts it",
 "Encoding any byte string yields exactly its RFC 4648 base64 text: length 4*ceil(n/3), standard alphabet, zero pad bits, '=' padding. The result depends only on the byte values, not on whether the container holds signed or unsigned bytes. Decoding that text, through either the returning or the output-buffer form, gives back exactly the original bytes.",
 ["inputs"], "every byte string of every length, in every contiguous byte container",
 "test/nbdl/util/base64.cpp encodes a handful of fixed ASCII strings; no byte >= 0x80 in a char container and no systematic tail lengths.",
 [N+"util/base64_encode.hpp", N+"util/base64_decode.hpp"],
 [("base64_encode", N+"util/base64_encode.hpp"), ("base64_decode", N+"util/base64_decode.hpp")],
 ["nbdl::util::base64_encode / base64_decode return values"])

prop("C02", "Base64 decoding accepts exactly well-formed text and is memory safe",
 "For any byte string, decoding succeeds exactly when its length is a multiple of four, all bytes are in the alphabet, and '=' occurs only as the last one or two bytes; otherwise the returning form yields an empty buffer and the output-buffer form yields false. On success the output has exactly the decoded length and contents, a fixed-size output of any other length is refused and left untouched, and nothing outside input and output is read or written.",
 ["inputs"], "every byte string of every length, for growing and fixed-size outputs",
 "the tests reject a few hand-written malformed strings; 256^n inputs of each length exist and the two call forms take different paths.",
 [N+"util/base64_decode.hpp"],
 [("validate / decode / prepare_output_buffer", N+"util/base64_decode.hpp")],
 ["return value and output buffer of nbdl::util::base64_decode"])

prop("C03", "WebSocket sender emits a valid frame sequence for every payload",
 "For a payload of any length and contents, the bytes a message send puts on the wire parse as RFC 6455 frames: the first frame carries the message's opcode, later ones the continuation opcode, the last frame and only the last has FIN, reserved bits are zero, each length is in its minimal encoding, and the concatenated frame payloads equal the message. The completion is signalled exactly once after the last byte, and a write error is reported exactly once with nothing sent after it.",
 ["inputs", "fault_sequences"], "every payload length and contents, every opcode, every maximum frame size, a write failure at any frame",
 "test/nbdl/websocket/detail/message.cpp sends a few fixed payloads over a socket; none has a length that is an exact multiple of the frame size, and no write error occurs.",
 [W+"message_sender.hpp"],
 [("send_message_impl", W+"message_sender.hpp"), ("encoded_length_buffer", W+"message_sender.hpp")],
 ["bytes handed to the socket's asynchronous write", "resolve / reject of the send promise"])

prop("C04", "WebSocket reader delivers exactly the message every valid frames carry",
 "For every valid sequence of frames (masked or not, 7/16/64-bit length forms, any fragmentation, ping/pong/close frames with or without payload interleaved), the reader reports exactly one event per complete message or control frame, in order, and each message event carries exactly the unmasked concatenation of its fragments. A control frame between fragments alters no message, and a close frame ends reading with its payload available.",
 ["inputs", "histories"], "every valid frame sequence, payload, mask key and length encoding",
 "the tests feed a few fixed messages whose fragments are unmasked and whose control frames are empty.",
 [W+"message_reader.hpp"],
 [("read_payload / get_payload_length / opcode_dispatch / keep_reading", W+"message_reader.hpp")],
 ["events and payloads passed to the reader's event handler"])

prop("C05", "WebSocket reader stays safe and well-defined on hostile input",
 "For every byte stream a peer can send, and a read error or end of stream at any point, the reader never reads or writes outside its buffers, never executes undefined behaviour and never terminates the process. A reserved opcode or an impossible length ends in the bad-input event, a stream error in the error event; after a terminal event (close, bad input, error) it issues no further read and reports no further event.",
 ["inputs", "fault_sequences"], "every byte stream, every truncation point, every stream error",
 "one test sends a single reserved opcode; no test sends large or negative-looking lengths, truncated frames or stream errors.",
 [W+"message_reader.hpp"],
 [("get_payload_length / read_payload / opcode_dispatch", W+"message_reader.hpp"), ("run_async_loop", N+"run_async_loop.hpp")],
 ["event handler calls, reads issued on the socket, process state"])

prop("C06", "Handshake request parsing extracts the right headers from any request",
 "For every request, the server side accepts the request line only if it is exactly 'GET / HTTP/1.1', and then yields the values of the Sec-WebSocket-Key and Cookies headers: name matched case-insensitively up to the first ':', leading blanks skipped, last occurrence wins, other headers and lines without ':' ignored. No request, however malformed, makes it read outside the received line, and a stream error is reported exactly once.",
 ["inputs", "fault_sequences"], "every sequence of header lines and every byte in them, a read error at any line",
 "the tests send one or two well-formed requests; no header line without a colon, no partial line, no error.",
 [W+"parse_handshake_request.hpp", W+"expect_equal.hpp"],
 [("parse_header / read_headers", W+"parse_handshake_request.hpp"), ("expect_equal", W+"expect_equal.hpp")],
 ["handshake info passed to the next stage, or the rejection"])

prop("C07", "Handshake accept token and response match RFC 6455 for every key",
 "For every client key the server answers with '101 Switching Protocols', the Upgrade and Connection headers, and Sec-WebSocket-Accept equal to base64(SHA-1(key + the RFC 6455 GUID)), ended by an empty line, and hands on the auth token found in the request's cookies. The client accepts the response that a server of this library sends for its key, refuses one with any other status line or accept token, and its own request carries the configured origin and auth token verbatim, so that the server is handed the same token.",
 ["inputs", "fault_sequences"], "every key, cookie string, origin, token and response, a write or read error at any step",
 "the tests check one sample key and one response.",
 [W+"send_handshake_response.hpp", W+"send_handshake_request.hpp", W+"parse_handshake_response.hpp", N+"detail/beast_sha1.hpp"],
 [("generate_accept_token", W+"send_handshake_response.hpp"), ("send_handshake_request", W+"send_handshake_request.hpp"), ("parse_handshake_response", W+"parse_handshake_response.hpp")],
 ["bytes written to the socket, resolve / reject of the handshake stages"])

prop("C08", "SHA-1 computes the FIPS 180 digest for any message, however chunked",
 "For every message and every way of splitting it into successive updates, including empty ones and pieces that straddle 64-byte blocks, the finished digest equals the FIPS 180-4 SHA-1 of the whole message. A context that is initialised again behaves like a new one, and no access leaves the context, the message or the digest buffer.",
 ["inputs", "histories"], "every message and every partition of it into updates",
 "SHA-1 is only exercised through one sample key; block-boundary lengths and split updates are never run.",
 [N+"detail/beast_sha1.hpp"],
 [("init / update / finish / transform", N+"detail/beast_sha1.hpp")],
 ["digest bytes"], [("sha1_context", "chaining value, buffered bytes and block count", N+"detail/beast_sha1.hpp")])

prop("C09", "Auth token lookup returns exactly the nbdl_auth cookie of any header",
 "For every Cookie header value, the auth token is the value (up to the next ';' or the end) of the first cookie named exactly nbdl_auth in the list of cookies, which are separated by ';' and optional blanks, and is empty when there is none. A cookie whose name merely ends or begins with that name, or whose value contains it, is never mistaken for it, and no byte outside the string is read.",
 ["inputs"], "every cookie string",
 "a handful of fixed cookie strings are tested; look-alike names, empty values and truncated lists are not.",
 [W+"get_auth_token.hpp"],
 [("get_auth_token / check_auth_cookie / take_cookie_value", W+"get_auth_token.hpp")],
 ["returned auth_token_t"])

prop("C10", "The application server finds the session cookie in every Cookie header",
 "For every Cookie header value, a list of cookies separated by ';' with optional blanks before each, the session is the value, up to the next ';' or the end, of the first cookie named exactly NBDL_SESS and is empty when there is none, whatever other cookies look like (including ones without '=' or with several). Look-alike names and values that contain the name are never taken for it, and no byte outside the header is read.",
 ["inputs"], "every cookie string",
 "nine fixed strings are tested; cookies without '=', look-alike names, odd blanks and truncated lists are not.",
 [N+"app/detail/cookie_parser.hpp"],
 [("get_session_cookie / skip_past / remove_leading_whitespace", N+"app/detail/cookie_parser.hpp")],
 ["return value"])
prop("C11", "Variants hold exactly the alternative and value last given",
 "After any sequence of constructions, copies, moves, assignments (self-assignment and assignment across alternatives included), mutations through match, and reads by bind_variant, a variant holds exactly the alternative and value last given to it: the type id, is<T>, match, nbdl::match, match_when and bind_variant all agree, matching calls exactly one overload exactly once, nested variants are matched through, and every alternative object constructed is destroyed exactly once. A default-constructed variant holds the unresolved alternative; binding a type id that names no alternative changes nothing; optionals hold a value exactly when given one; variant_holder presents the same index and value.",
 ["histories", "inputs"], "every operation sequence and every value of the alternatives",
 "tests run a few fixed construct/match sequences; they do not quantify over assignment histories, discriminators or values.",
 [N+"variant.hpp", N+"variant_holder.hpp", N+"match.hpp", N+"bind_variant.hpp"],
 [("detail::variant", N+"variant.hpp"), ("match impl", N+"variant.hpp"), ("variant_holder match impl", N+"variant_holder.hpp")],
 ["match visits, get_type_id, bind_variant callbacks, object construction and destruction counts"])

prop("C12", "Deltas obey the laws of partial updates",
 "Applying a delta to a value changes exactly the members that are set in it, to the values it holds, leaves the others alone, and reports whether anything changed. The delta computed from two values holds exactly the members in which they differ, so it takes one to the other. Merging a later delta into an earlier one acts like applying the two in turn, an empty delta is the identity, and applying again changes nothing.",
 ["inputs", "histories"], "every entity value, every subset of set members and every sequence of deltas",
 "test/nbdl/core/delta.cpp checks a few fixed member combinations.",
 [N+"delta.hpp"],
 [("apply_delta / merge / set / get", N+"delta.hpp")],
 ["entity members after apply, delta member presence"])

prop("C13", "Optimistic local versions converge and never lose a pending change",
 "For every interleaving of own changes (unconfirmed updates), their confirmations in any order and confirmed changes of others, a local version displays the initial value with all confirmed changes applied in the order of their confirmation whenever no own change is outstanding. While own changes are outstanding it displays every own and foreign change as it arrives, and the confirmation of one of them changes nothing displayed. Applying a change reports true exactly when the displayed value changed.",
 ["histories", "schedules"], "every interleaving of local, confirmation and foreign updates, and every member value",
 "test/nbdl/core/local_version.cpp runs one fixed message order with a one-member entity.",
 [N+"local_version.hpp", N+"delta.hpp"],
 [("local_version apply_message", N+"local_version.hpp"), ("apply_confirmed_delta / apply_local_delta", N+"local_version.hpp")],
 ["nbdl::get / nbdl::match on the local version, result of nbdl::apply_message"])

prop("C14", "The map store reflects exactly the messages applied to it",
 "For every history of create, read, update and delete messages, upstream and downstream, over any keys, a map store's lookup of a path gives exactly what a reference map gives: the entity of the last downstream create, update or first read response, 'not found' after a negative read response, 'unresolved' once a read was requested and not yet answered, and the store's own absent tag (nbdl::trigger_read for map_store) for a path never asked for or deleted since. A message changes no other path's entry, a read response never overwrites a resolved entry, an upstream message other than a read changes nothing, and applying a message reports whether the state changed.",
 ["histories", "inputs"], "every message history, key collision pattern and entity value",
 "test/nbdl/core/map_store.cpp applies a single message to one key per test.",
 [N+"map_store.hpp", N+"ext/std/unordered_map.hpp", N+"apply_message.hpp"],
 [("handle_map_store_action / match_impl<map_store_tag>", N+"map_store.hpp"), ("match_impl<std::unordered_map>", N+"ext/std/unordered_map.hpp")],
 ["nbdl::match on the store and result of nbdl::apply_message after each message"])

prop("C15", "A context routes every message to the right store and actors, once, in order",
 "For every sequence of upstream and downstream messages and lookups made by any producer or consumer, the context applies each message only to the store its path belongs to, before anyone is told, sends upstream messages to exactly the producer of that root, tells every consumer a downstream message once, and notifies every state consumer once exactly when the store changed. A read or a lookup of a path nothing is known about is sent to the producer once and not again while the answer is pending, a read of a known path is answered from the store, and a store listening to other paths sees exactly the messages of those.",
 ["histories", "schedules", "configurations"], "every message sequence, path, sender and store state",
 "test/nbdl/core/context.cpp sends one message per fresh context with a store that stores nothing; the read dispatch test is disabled.",
 [N+"context.hpp", N+"make_context.hpp", N+"map_store.hpp", N+"apply_foreign_message.hpp"],
 [("context::push_message / propagate_upstream / propagate_downstream / notify_state_consumers", N+"context.hpp"), ("match_impl<context_tag>", N+"context.hpp")],
 ["calls to send_upstream_message / send_downstream_message / notify_state_change / apply_foreign_message with their arguments, store contents seen by lookups"])

prop("C16", "Equality and hashing agree for every value",
 "For every pair of unique ids, entity keys, entities, paths and variants, equality holds exactly when the represented values are equal (same alternative and same value for variants, every member for entities and paths), it is symmetric, copies compare equal to their source, values that differ in a single component compare unequal, and equal unique ids, entities, paths and sequences always have equal hashes (std::hash for unique ids, nbdl::binder::hash for all of them), whatever they hold.",
 ["inputs"], "every pair of values",
 "tests compare a few fixed values; hash agreement is never quantified.",
 [N+"uid.hpp", N+"entity.hpp", N+"key.hpp", N+"binder/hash.hpp", N+"variant.hpp"],
 [("hash and comparison operators", N+"uid.hpp"), ("binder::hash", N+"binder/hash.hpp")],
 ["operator==, hana::equal, std::hash, nbdl::binder::hash"])

prop("C17", "Serialising a value to JSON and reading it back returns it unchanged",
 "For every value of every bindable type (integers, booleans, finite doubles, enums, Unicode strings including embedded U+0000, containers of any length including empty, byte buffers, variants, nested entities, deltas and messages), converting to JSON text and reading that text back yields an equal value, whatever the target object held before. Hence distinct values never serialise to the same text.",
 ["inputs"], "every value of the bindable types",
 "test/nbdl/binders/jsoncpp round-trips a few fixed entities; no empty container, negative enum, embedded NUL or pre-filled target.",
 [N+"binder/jsoncpp.hpp", N+"bind_sequence.hpp", N+"bind_map.hpp", N+"variant.hpp"],
 [("jsoncpp reader / writer binders", N+"binder/jsoncpp.hpp")],
 ["nbdl::binder::jsoncpp::to_string / from_string"])

prop("C18", "Reading JSON of the wrong shape is refused, never undefined",
 "For every JSON document, reading it into a bindable type either succeeds with exactly the values the document holds or throws an exception; a member of the wrong kind, a missing member, a sequence of the wrong length, an out-of-range number or variant index, or invalid base64 never produces a value (unknown extra members may be ignored, integral reals accepted or refused). No document makes the reader execute undefined behaviour or touch memory outside the target.",
 ["inputs"], "every JSON document shape",
 "one or two malformed documents are tested.",
 [N+"binder/jsoncpp.hpp", N+"variant.hpp"],
 [("jsoncpp reader binder", N+"binder/jsoncpp.hpp")],
 ["exception or resulting value of from_string / bind"])

prop("C19", "Promise pipelines run each stage once and route errors to the next catch",
 "For every outcome of every stage (resolve or reject, immediately or later, any value), a pipeline runs the stages in order, passes each result to the next stage only, sends a rejection to the nearest following catch stage skipping all in between, and reaches its end exactly once. Values are forwarded unchanged, and whatever the outcome all resources the pipeline owns are released exactly once with nothing used after release.",
 ["inputs", "schedules", "fault_sequences"], "every assignment of outcomes and delays to the stages, every value",
 "test/nbdl/core/pipe.cpp fixes one outcome per stage.",
 [N+"promise.hpp", N+"pipe.hpp", N+"run_async.hpp", N+"run_sync.hpp", N+"run_async_loop.hpp", N+"catch.hpp", N+"detail/promise_join.hpp"],
 [("pipe / promise_join / run_async / run_sync", N+"detail/promise_join.hpp")],
 ["stage invocations and their arguments, final resolution, live allocations"])

prop("C20", "WebSocket endpoints keep message order and close cleanly",
 "For every schedule of sends, incoming frames, completions and stream errors, an endpoint transmits queued messages whole, in order and one at a time, delivers received messages in order, and reports ready once and at most one terminal event. After a close is sent or received it transmits no further data frame and sends at most one close frame, after stop or an error it calls no handler, and a write error is never lost.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of API calls, I/O completions and errors",
 "test/nbdl/websocket/endpoint.cpp runs one schedule over a real loopback socket.",
 [W+"endpoint_impl.hpp", N+"websocket/endpoint.hpp", N+"websocket/server_endpoint.hpp", N+"websocket/client_endpoint.hpp"],
 [("endpoint_impl send queue, close handling, event dispatch", W+"endpoint_impl.hpp")],
 ["bytes written, handler events"])

prop("C21", "Every move of the tiles game is legal and keeps the board a permutation",
 "For every board reachable or not, moving a tile swaps it with the empty cell exactly when the two are horizontally or vertically adjacent on the board, and otherwise changes nothing. The board stays a permutation with exactly one empty cell, repeated moves of the same tile undo each other, and no cell outside the board is ever addressed.",
 ["inputs", "histories"], "every board arrangement, board size and tile index",
 "the tests try a handful of moves on one 3x3 board.",
 ["example/tiles/game.hpp"],
 [("get_tile_swap_index / move", "example/tiles/game.hpp")],
 ["board after a move"])

prop("C22", "Route maps turn routes into URLs and back, and reject everything else",
 "For every route value a route map can represent (positive numbers, non-empty text without slashes), the URL string it produces parses back to the same route variant, so distinct routes give distinct strings. Every string that is not such a URL (up to leading zeros of a number and one trailing slash) parses to the not-found alternative, a number too large for its parameter included, with no access outside the string. Setting a route sends an update of the navigation route that holds exactly that route.",
 ["inputs"], "every route value and every string",
 "test/nbdl/webui/route_map.cpp checks a few fixed routes.",
 [N+"webui/route_map.hpp", N+"webui/set_route.hpp"],
 [("route_map to_string / to_variant", N+"webui/route_map.hpp")],
 ["strings and variants returned by the route map"])

prop("C23", "Matching and composed stores dispatch on the value actually stored",
 "For every state of the stores involved, matching a path through composed, tuple-like, entity, variant, alias or map stores calls the handler exactly once, with the very value that the innermost store holds at that path, and with not-found, unresolved or not-in-set instead exactly when a store on the way is in that state. A visitor for one type is called exactly when the matched value has it, and conditional matching takes the first branch whose condition (or type) holds, or none if its path leads nowhere, with the arguments unchanged.",
 ["inputs", "configurations"], "every store state, key and branch condition",
 "core match tests fix the store contents and one path each.",
 [N+"match.hpp", N+"match_path.hpp", N+"store_compose.hpp", N+"get.hpp", N+"detail/match_if.hpp", N+"context_store.hpp", N+"variant.hpp", N+"ext/std/unordered_map.hpp", N+"ui_helper/match_branch.hpp", N+"ui_helper/match_params_spec.hpp", N+"ui_helper/match_path_spec.hpp", N+"path_promise.hpp", N+"store_range.hpp", N+"strong_alias.hpp"],
 [("match / match_path / store_compose / match_when", N+"match.hpp")],
 ["handler invocations and arguments"])

prop("C24", "The echo producer answers every change once, with a fresh key for every creation",
 "For every history of upstream create, update and delete messages, of every form (with or without unique id or private payload), the echo producer sends exactly one downstream message of the same kind for each, with the same parent path, unique id and payload and, for updates and deletes, the same path. A created entity whose key is not given gets a key that no entity of that path created before has, and it never answers anything upstream or twice.",
 ["histories", "inputs"], "every sequence of upstream messages",
 "test/nbdl/core/echo_producer.cpp sends the same create message three times.",
 [N+"echo_producer.hpp", N+"message.hpp"],
 [("send_upstream_message_impl<echo_producer>", N+"echo_producer.hpp"), ("make_unique_key", N+"echo_producer.hpp")],
 ["downstream messages the context's consumers receive"])

prop("C25", "Message transformations keep path, identity and payload and leak nothing",
 "For every message and every value of its path, unique id, payload and private payload, each accessor returns the component the message was built with, and deriving another message (downstream from upstream with or without a confirmation flag, with a supplied key, read response) keeps path, unique id and payload that belong in it. A private payload never appears in a message that goes to other clients, and each message answers true to exactly the channel and action predicates it was built with.",
 ["inputs", "configurations"], "every message kind and every component value",
 "test/nbdl/core/message.cpp uses one fixed value per kind and does not touch every accessor on every kind.",
 [N+"message.hpp", N+"fwd/message.hpp"],
 [("make_* / get_* / to_downstream", N+"message.hpp")],
 ["results of get_path, get_uid, get_payload, get_private_payload, is_confirmed, the traits and bind_sequence"])

prop("C26", "String concatenation produces exactly its parts, in order",
 "For every list of strings, string views, compile-time strings and zero-terminated texts given to nbdl::detail::string_concat, the result is exactly the concatenation of the parts in order, whatever their lengths (empty included) and contents (zero bytes included). Nothing outside the parts is read and the parts are not changed.",
 ["inputs"], "every list of parts and every content",
 "tests concatenate a few literals.",
 [N+"detail/string_concat.hpp"],
 [("string_concat", N+"detail/string_concat.hpp")],
 ["resulting string"])

prop("C27", "SQL statements are well-formed and bind each value to its own column",
 "For every entity (with at least one column of its own, nested to any depth, with containers when inserted) and all member values and keys, the INSERT, UPDATE and SELECT statements built for it are well-formed SQL that names every column exactly once, has one placeholder per value and binds each member's value to its own column; no value is spliced into the text. So executing them is faithful: children are inserted before the row that refers to them by their returned key, every element of a container is inserted once, in order, with its owner's key (and every row with the caller's keys), SELECT by key joins each child by its own key and yields exactly the inserted values, and UPDATE replaces every column of the row that all of its keys name and of no other row. Entities and keys passed as lvalues are left alone.",
 ["programs", "inputs"], "every entity type and every member value",
 "tests compare the text for a few example entities and one key; no statement is ever executed.",
 [N+"sql_db/insert.hpp", N+"sql_db/update.hpp", N+"sql_db/statement"],
 [("statement builders", N+"sql_db/statement")],
 ["statement text and bound values"])

prop("C28", "An application's wire format routes each message to its own handler",
 "For every message of every entity type, serialising it on one side and deserialising it on the other yields a message of the same kind with equal path, unique id and payload, dispatched to exactly one handler. A buffer that names an unknown message kind or is malformed is reported as an error exactly once and produces no message.",
 ["inputs"], "every message kind and every component value, every malformed buffer",
 "test/nbdl/app runs one client/server script.",
 [N+"app/serializer.hpp", N+"websocket_api/detail/convert_payload.hpp", N+"binder/jsoncpp.hpp"],
 [("serializer", N+"app/serializer.hpp")],
 ["deserialised message variant"])

prop("C30", "Browser bindings (JS values, DOM rendering) mirror the native state",
 "For every state change, the rendered DOM and the JS values held by the browser bindings reflect the current native values, every JS handle is released exactly once, and events reach the right handler.",
 ["histories", "schedules"], "every sequence of state changes and DOM events",
 "the browser parts are not built or run natively at all.",
 [N+"js.hpp", N+"binder/js.hpp", N+"webui/renderer.hpp", N+"webui/detail/dom_manips.hpp"],
 [("js::val, renderer", N+"js.hpp")],
 ["DOM tree"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
