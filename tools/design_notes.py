HOW = {
"C01": "For every length in the bound a fully symbolic byte string is encoded and decoded with each decode form; the text is compared with an RFC 4648 reference (alphabet by arithmetic on symbolic sextets, padding) and the decoded bytes with the input.",
"C02": "For every length a fully symbolic text is decoded by every form, and accepted exactly when an independent branch-free RFC 4648 validator accepts it; accepted bytes are compared with the reference, a failure must leave a cleared output, and the engine's memory model decides that nothing outside the text and the output is touched.",
"C03": "Messages of symbolic content are sent through the real `message_sender` into the in-memory connection; the bytes on the tape are parsed by an independent RFC 6455 frame reader: one message, exact payload, opcode, fragmentation and minimal length form, completion reported once, and an error stopping everything after it. The head of a frame is decided for every 64-bit length below 2^63.",
"C04": "A sequence of valid frames with symbolic payloads and masks is written by the harness's own encoder and read by the real `message_reader`; the events must be exactly the messages, control frames and close, in order, whatever way the stream is cut into reads.",
"C05": "Streams of symbolic bytes and frames that lie about their length are read; memory safety is decided by the engine, the harness asserts a single terminal event, nothing read or reported after it, everything released, and that allocation failures become bad input.",
"C06": "Symbolic header lines, names in every mix of case and near misses, cut into pieces at every place, are parsed by the real handshake parser; what it reports is compared with a reference line reader.",
"C07": "The client's request is fed to the server's parser and the server's response to the client's, with symbolic keys, cookies, tokens and origins, and with foreign or cut texts; acceptance is compared with the RFC 6455 accept token.",
"C08": "The compression function is compared with a FIPS 180-4 reference for *every* chaining value and block (as one query per round group after rewriting), and chunked updates with the compression of the explicitly padded message for every content, length and cut in the bound.",
"C09": "A symbolic Cookie header (arbitrary, or built around the cookie's name with one arbitrary byte) is searched by the real function and by a branch-free reference.",
"C10": "A symbolic Cookie header (arbitrary, or built around the session cookie's name with one arbitrary byte) is searched by the real get_session_cookie and by a reference that splits the list at every ';'; the result must be the same bytes of the same header.",
"C11": "Histories of operations on two variants (forked) over symbolic values are mirrored by a reference (alternative number, value, counted lifetimes); after every step index, value and the number of live objects must agree and at the end nothing is left.",
"C12": "Symbolic entities a, b: applying the delta between them to a gives b, it is empty exactly when they are equal, deltas merge like their application in sequence.",
"C13": "A local version receives every interleaving of own changes, confirmations in any order and foreign changes (forked) with symbolic values; after each step the displayed value must be the confirmed value with the outstanding own changes applied in order, and the reported change must tell the truth.",
"C14": "Sequences of messages over symbolic keys are applied to the real map store and to a reference map that compares keys only; every lookup and reported change must agree.",
"C15": "Sequences of messages and lookups go through a real context with several producers, stores and consumers; a reference says which actor must hear which message, in which order, how often and with what state.",
"C16": "For every pair of symbolic values of each hashed type: equality is what the parts say, symmetric, and equal values have the same hash (asserted on symbolic hash terms).",
"C17": "A symbolic value of each bindable type is written and read back into a fresh and into an arbitrary filled target; every component must be equal. Long lists of types.",
"C18": "A document of the target's shape is generated symbolically with one (thorough two) arbitrary deviations; a reference for the type says whether it is acceptable and what it then holds; the real reader must accept exactly those or throw.",
"C19": "Pipelines are run with the outcome and time of every stage forked and the values symbolic; a reference evaluator gives the sequence of stages and handlers and their arguments; live-object counts decide that everything is released once.",
"C20": "Every schedule in the bound of calls of the owner, completions, faults and incoming frames is driven through the real endpoint over the in-memory connection; a monitor holds the protocol (each handler at most once, terminal events final, messages sent in order exactly once, the close frame, nothing after stop or destruction), and the engine decides lifetimes.",
"C21": "Boards with symbolic tiles; one move at any index is compared with a branch-free reference, with guards around the board; through a context, the store changes by exactly the move and consumers hear of real changes only.",
"C22": "Routes with symbolic parameters are written and parsed back; symbolic strings are parsed and the accepted ones must be the address of the route they gave.",
"C23": "Stores of symbolic state are matched; a reference selects which function must be called, once, with which value and key path.",
"C24": "Messages with symbolic keys go to a real echo producer behind a context; the downstream message must be the confirmed image of what was sent, and keys made for creations are distinct along the whole history.",
"C25": "For each kind of message all accessors are compared with the symbolic parts it was made from; conversion to downstream keeps path, uid and payload.",
"C26": "Symbolic strings are concatenated by `string_concat` in all combinations and compared with std::string concatenation.",
"C27": "The generated statements are parsed and *executed* by a small database in the harness (insert, join, where, update), over entities of symbolic values and keys: what is inserted must be what a SELECT by key returns under each column's path, rows belong to their owner, an UPDATE reaches exactly the row that all its keys name; every placeholder is compared with its column.",
"C28": "Every kind of message of an API with symbolic path, uid and payload is serialized and given to the deserializer: one message of the same kind with equal parts; documents with deviations and garbage give one error or a message that covers the document.",
}
CAUGHT = {}
