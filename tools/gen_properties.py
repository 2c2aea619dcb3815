#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Offline reading yields exactly the events of the file, in order",
  "Reading a well-formed binlog file yields one item per event in the file, in file order, each with the header fields stored in the file and the event those bytes encode, and then ends. "
  "The result does not depend on the sizes of the events or on how the operating system splits or interrupts the reads.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of event kinds and payload sizes (around the 32 KiB buffer in particular) and every pattern of short or interrupted reads, within the bounds of the check",
  "No test opens a file through the reader at all; they decode single hand-copied payloads.",
  ["src/binlog_reader.rs", "src/events/event_header.rs", "src/events/event_parser.rs"],
  [("header then payload read with read_exact, fixed buffer below 32 KiB and a fresh one above", "src/binlog_reader.rs: BinlogReader::read_event")],
  [("payload_buffer", "reused between events", "src/binlog_reader.rs")], ["BinlogReader iterator items"])
p("C02", "A binlog file cut at any byte yields every complete event and nothing else",
  "If a binlog file ends after any number of its bytes, reading it yields exactly the events whose bytes are all present, identical to those of the complete file, and then ends normally, with no error and no fabricated event. "
  "A file that does not begin with the binlog magic number is refused with an error when it is opened, and a read that fails is reported as an error, never as the end of the file.",
  ["crash_points", "inputs", "fault_sequences"],
  "every cut position of every file of the alphabet, every 4-byte prefix deviation, a read failure at every read of the file",
  "Tests never read a file, so no torn tail, bad magic or failing read is exercised.",
  ["src/binlog_reader.rs"],
  [("UnexpectedEof ends the iteration, other errors are yielded", "src/binlog_reader.rs: Iterator::next"), ("magic number check", "src/binlog_reader.rs: BinlogReader::new")],
  [], ["BinlogReader::new result", "BinlogReader iterator items"])
p("C03", "An undecodable event is reported and disturbs no other event",
  "When the payload of one event inside an otherwise intact binlog file or replication stream cannot be decoded, that event yields exactly one item and it is an error. "
  "It never ends the iteration, and every other event yields the same item as it does when that event is absent.",
  ["inputs", "fault_sequences"],
  "every event kind, cut short or overwritten at every payload position, at every place in the file or stream",
  "Tests only feed well-formed payloads to single decoders and never continue after a failure.",
  ["src/binlog_reader.rs", "src/binlog_events.rs", "src/events/event_parser.rs"],
  [("the whole payload is consumed before it is decoded", "src/binlog_reader.rs: read_event; src/packet_channel.rs: read_packet"), ("only a read of the file decides the end of the file", "src/binlog_reader.rs: Iterator::next")],
  [], ["BinlogReader iterator items", "BinlogEvents iterator items"])
p("C04", "No bytes in a binlog event can crash, hang or exhaust the decoder",
  "Whatever bytes a binlog file contains, opening and reading it returns events or errors: it never panics, aborts, loops forever or asks for memory out of proportion to the sizes declared in the event headers. "
  "The same holds for the event bytes of a replication stream.",
  ["inputs"],
  "every header and payload: all single-byte changes and all truncations of a corpus with every event kind, and all short payloads for every event type code",
  "Tests contain no malformed payload for any event decoder.",
  ["src/binlog_reader.rs", "src/binlog_events.rs", "src/extensions.rs", "src/events", "src/metadata", "src/providers"],
  [("bounds checks before slicing, indexing and allocating", "src/extensions.rs, src/events/row_events/*, src/events/event_parser.rs")],
  [], ["BinlogReader items", "BinlogEvents items"])
p("C05", "No server response can crash or hang the client",
  "Whatever packets the server sends while the client connects, authenticates, configures and starts replication, and whenever it closes or resets the connection, the call returns a result or an error: the client never panics, aborts or waits beyond its read timeout. "
  "No malformed greeting or rejected login is treated as a successful connection.",
  ["inputs", "fault_sequences"],
  "every step of the connection dialogue of both server flavours and all login flows, with the response replaced by every short packet, every truncation, single-byte changes, or a close at every byte",
  "There is no test of the connection code; it needs a server.",
  ["src/connect.rs", "src/configure.rs", "src/packet_channel.rs", "src/responses", "src/extensions.rs", "src/binlog_events.rs"],
  [("length checks on response packets", "src/extensions.rs: check_error_packet; src/responses/*"), ("read timeout set on the socket", "src/packet_channel.rs: PacketChannel::new")],
  [], ["BinlogClient::replicate result"])
p("C06", "Malformed GTID text is rejected with an error, never a crash",
  "Parsing any text as a MySQL GTID set or a MariaDB GTID list returns either a value or an error; it never panics. "
  "Text whose identifiers or numbers are missing, malformed or out of range, or whose MariaDB domains repeat, is rejected, and a value is returned only for text that denotes it.",
  ["inputs"],
  "every string up to a length bound over the characters that are significant in GTID text, and every single-character deletion, insertion and substitution in valid texts",
  "Tests parse about a dozen valid texts and one invalid one.",
  ["src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid.rs", "src/providers/mariadb/gtid/gtid_list.rs"],
  [("component count and range checks", "GtidSet::parse, Uuid::parse, GtidList::parse")], [], ["GtidSet::parse", "GtidList::parse"])
p("C07", "Row events deliver every row with each cell in its column",
  "For every table shape, set of columns present and pattern of NULLs, a write, update or delete event yields exactly the rows the server logged, in order, with before and after images kept apart. "
  "Every row has one cell per table column, carrying the logged value, or none where the column is NULL or absent from the image, and the flags, table id, column count and presence bitmaps are reported as logged, for both row event versions.",
  ["inputs", "configurations"],
  "column counts across byte and length-encoding boundaries, all presence and NULL bitmaps up to a column bound and patterned ones above, 0 to many rows, both event versions, extra data of various lengths",
  "Tests contain no row event at all.",
  ["src/events/row_events/row_parser.rs", "src/events/row_events/write_rows_event.rs", "src/events/row_events/update_rows_event.rs", "src/events/row_events/delete_rows_event.rs", "src/extensions.rs"],
  [("NULL bitmap indexed over present columns only", "row_parser.rs: parse_row"), ("little-endian bitmaps", "extensions.rs: read_bitmap_little_endian"), ("version 2 extra data skipped", "row_parser.rs: parse_head")],
  [], ["rows of WriteRowsEvent/UpdateRowsEvent/DeleteRowsEvent"])
p("C08", "Numeric, string, bit, enum, set and blob cells decode to the logged value",
  "Every integer, floating point, character, binary, BIT, ENUM, SET, BLOB, JSON and GEOMETRY cell of a row event decodes to the value the server logged and consumes exactly its own bytes, for every column definition the type allows. "
  "A character value that is not valid UTF-8 is reported as an error, never silently altered.",
  ["inputs", "configurations"],
  "every type with every metadata the server can write for it (lengths across the 255/256 boundary, packed CHAR/ENUM/SET types, BIT 1..64, length bytes 1..4) and values covering each byte position",
  "Three tests cover the packed string type; no cell of these types is decoded by any test.",
  ["src/events/row_events/row_parser.rs", "src/events/row_events/col_parser.rs", "src/events/row_events/actual_string_type.rs", "src/extensions.rs", "src/events/table_map_event.rs"],
  [("per-type decoding", "row_parser.rs: parse_cell"), ("packed CHAR/ENUM/SET metadata", "actual_string_type.rs")], [], ["MySqlValue of the cell"])
p("C09", "Temporal cells decode to the logged date and time",
  "Every DATE, TIME, DATETIME, TIMESTAMP and YEAR cell, in the old and the fractional-seconds storage formats and for every fractional precision, decodes to the date, time of day or instant the server logged, truncated to milliseconds, and consumes exactly its own bytes. "
  "Zero dates and the zero year decode as zeros, and a negative TIME is reported as an error rather than as a wrong value.",
  ["inputs", "configurations"],
  "all calendar dates including zero parts, all times of day, all years, all TIME values up to 838:59:59, all fractional precisions with boundary fractions",
  "No test decodes a temporal value.",
  ["src/events/row_events/col_parser.rs"],
  [("bit-field extraction and fractional scaling", "col_parser.rs: parse_date, parse_time2, parse_date_time2, parse_timestamp2, parse_fractional_part")], [], ["MySqlValue of the cell"])
p("C10", "Decimal cells decode to the exact logged decimal",
  "For every DECIMAL(precision, scale) the server allows and every value of it, the cell decodes to the exact decimal text: sign, integer digits without superfluous leading zeros, and exactly scale fractional digits. "
  "It consumes exactly its own bytes.",
  ["inputs", "configurations"],
  "all 1,832 (precision, scale) pairs a server of either kind allows with structured digit patterns of either sign, and all values of small precisions",
  "Six tests cover three (precision, scale) pairs with one value each.",
  ["src/events/row_events/decimal.rs"],
  [("9-digit groups with compressed leading and trailing groups", "decimal.rs: parse_decimal")], [], ["MySqlValue::Decimal"])
p("C11", "Table maps decode to the logged table definition",
  "A table map event decodes to exactly the table id, database and table names, column types, per-column metadata and nullability that the server logged. "
  "Each optional metadata field the server appended (signedness, charsets, column names, enum and set values, geometry types, primary keys, visibility) decodes to its logged content, in any combination and order, and fields that were not logged are absent.",
  ["inputs", "configurations"],
  "all column types with boundary metadata, column counts across bitmap and length-encoding boundaries, all subsets of the twelve optional fields, values across length-encoding boundaries",
  "No test decodes a table map.",
  ["src/events/table_map_event.rs", "src/metadata/table_metadata.rs", "src/metadata/metadata_type.rs", "src/metadata/default_charset.rs", "src/extensions.rs"],
  [("type-dependent metadata width and byte order", "table_map_event.rs: parse_metadata"), ("type-length-value optional fields", "table_metadata.rs: TableMetadata::parse")], [], ["TableMapEvent fields"])
p("C12", "Row events are decoded with the latest table map of their table id",
  "Throughout a file or stream, a row event is decoded with the definition given by the most recent table map event that carries its table id, however many tables are mapped and however definitions are replaced or events interleaved, commits, rotations and format descriptions included. "
  "A row event whose table id was never mapped yields an error, never a guess.",
  ["histories"],
  "all histories of table maps (two ids, several definitions), row events and neutral events up to a depth; long histories with many live tables",
  "Tests never decode two events with one parser.",
  ["src/events/event_parser.rs", "src/events/row_events/row_parser.rs"],
  [("table map cache keyed by table id", "event_parser.rs: parse_event"), ("missing map is an error", "row_parser.rs: TABLE_MAP_NOT_FOUND")],
  [("table_map", "latest definition per table id", "event_parser.rs: EventParser")], ["row event items"])
p("C13", "Non-row events decode to the logged content",
  "Query, rotate, transaction-commit, integer-variable, user-variable, rows-query, heartbeat, format-description and GTID-related events of MySQL and MariaDB decode to exactly the field values the server logged. "
  "Event types the library does not model are delivered as unknown events and do not fail.",
  ["inputs"],
  "every event kind with every combination of boundary values for its fields, every event type code",
  "Tests decode one user variable event and one previous-gtids event.",
  ["src/events/query_event.rs", "src/events/rotate_event.rs", "src/events/xid_event.rs", "src/events/intvar_event.rs", "src/events/uservar_event.rs", "src/events/rows_query_event.rs", "src/events/heartbeat_event.rs", "src/events/format_description_event.rs", "src/events/event_type.rs", "src/providers/mysql/events", "src/providers/mariadb/events"],
  [("one decoder per event kind, dispatched on the type code", "event_parser.rs: parse_event; event_type.rs: from_code")], [], ["BinlogEvent variants"])
p("C14", "Event checksums never leak into decoded content",
  "Whether checksums are off or CRC32, the same events decode to the same content: the four checksum bytes are stripped exactly when the algorithm in force appends them. "
  "The algorithm in force is the one negotiated with the server when the stream starts, and from a format description event onwards the one that event declares, including servers too old to declare any.",
  ["histories", "configurations"],
  "all histories of format descriptions (no algorithm, none, CRC32; several server generations) and other events up to a depth, in files and in streams",
  "Tests bypass the parser that strips checksums.",
  ["src/events/event_parser.rs", "src/events/format_description_event.rs", "src/configure.rs", "src/constants/checksum_type.rs"],
  [("payload trimmed by the current algorithm", "event_parser.rs: parse_event"), ("algorithm located behind the post-header lengths", "format_description_event.rs: parse"), ("initial algorithm queried", "configure.rs: set_master_binlog_checksum")],
  [("checksum_type", "algorithm in force", "event_parser.rs: EventParser")], ["decoded items"])
p("C15", "A MySQL GTID set behaves as a mathematical set of transactions",
  "Parsing GTID set text, in any order, overlap, repetition and letter case the server accepts, and adding transactions in any order give a set containing exactly the denoted transactions; adding reports whether the transaction was new. "
  "Its text is canonical: equal sets print the same, with sources and disjoint, non-adjacent intervals in ascending order, and parsing the text gives the same set back.",
  ["inputs", "histories"],
  "all subsets and all insertion orders over a small universe of sources and transaction numbers, all interval lists up to a length, boundary transaction numbers",
  "About ten examples are tested, with intervals given in ascending order.",
  ["src/providers/mysql/gtid/gtid_set.rs", "src/providers/mysql/gtid/uuid_set.rs", "src/providers/mysql/gtid/interval.rs", "src/providers/mysql/gtid/uuid.rs"],
  [("binary search for the interval, extend or insert, then join neighbours", "uuid_set.rs: add_gtid, find_interval_index, collapse_intervals")],
  [("intervals", "sorted disjoint intervals per source", "uuid_set.rs: UuidSet")], ["GtidSet::add_gtid", "GtidSet to_string/parse"])
p("C16", "A MariaDB GTID list keeps the latest position of every domain",
  "Parsing a GTID list and adding GTIDs in any order gives a list with exactly one entry per domain, holding the GTID added last for that domain, with the other domains and their order untouched; adding reports whether the domain was new. "
  "Parsing the printed text gives the same list back.",
  ["inputs", "histories"],
  "all operation sequences up to a depth over a few domains, servers and sequence numbers including the numeric limits",
  "Six examples are tested.",
  ["src/providers/mariadb/gtid/gtid_list.rs", "src/providers/mariadb/gtid/gtid.rs"],
  [("replace by domain, else append", "gtid_list.rs: add_gtid")], [("gtids", "one entry per domain", "gtid_list.rs: GtidList")], ["GtidList::add_gtid", "to_string/parse"])
p("C17", "The committed GTID position covers exactly the fully processed transactions",
  "After committing any prefix of a MySQL or MariaDB event stream in GTID mode, the client's GTID position is its starting position plus exactly the transactions whose last event has been committed. "
  "A transaction is never covered before its last event was committed, never missed afterwards, and one interrupted by a reconnect is not covered by events of another.",
  ["histories", "crash_points"],
  "all sequences of transaction shapes (row-based, statement-based, DDL, non-transactional, rolled back, XA, with savepoints, with neutral events in between) up to a length, examined after every event, with reconnects between events",
  "No test calls commit.",
  ["src/binlog_client.rs"],
  [("pending GTID promoted on the event that ends the transaction", "binlog_client.rs: update_gtid_position, commit_gtid"), ("pending state cleared on reconnect", "binlog_client.rs: replicate")],
  [("transaction", "inside an explicit transaction", "binlog_client.rs: BinlogClient"), ("maria_gtid, mysql_gtid", "GTID of the transaction in progress", "binlog_client.rs: BinlogClient")],
  ["client.options.binlog.gtid_set", "client.options.binlog.gtid_list"])
p("C18", "The committed file position is always a safe and current point to resume from",
  "After committing any prefix of a stream, a server that restarts streaming from the client's file name and position sends every event not yet committed, each row event preceded by its table map. "
  "Outside the row events of an unfinished statement, the position is exactly the end of the last committed event, following rotations to the next file and ignoring events that carry no position.",
  ["histories", "crash_points"],
  "all sequences of statement and transaction shapes, rotations, artificial events and heartbeats up to a length, examined after every event",
  "No test calls commit.",
  ["src/binlog_client.rs"],
  [("position advanced except after a table map, or a row event that leaves its statement open; file taken from rotate events", "binlog_client.rs: update_binlog_position")],
  [("filename, position", "where to resume", "binlog_options.rs: BinlogOptions")], ["client.options.binlog"])
p("C19", "After any disconnect, replication resumes without losing or repeating work",
  "If the connection or the application fails at any point and replication is started again from the committed position, the application ends up having received every event of every transaction, each transaction complete at least once in GTID mode. "
  "In GTID mode a transaction that was completely committed before the failure is not delivered again, and a position that was printed and parsed back works like the original.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories up to a length over the transaction shapes of both server flavours, all failure points (after every packet and inside packets, before or after commit), all starting strategies, up to two failures",
  "There is no test with a server or with reconnection.",
  ["src/binlog_client.rs", "src/binlog_events.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs", "src/configure.rs"],
  [("dump request built from the committed position", "mysql_provider.rs: replicate_mysql; mariadb_provider.rs: replicate_mariadb"), ("commit", "binlog_client.rs: commit")],
  [], ["events received across reconnects from a model server"])
p("C20", "The dump request asks for exactly the configured starting point",
  "For every starting strategy and server flavour, the server receives a well-formed request to stream from exactly the configured position: the file name and position, or exactly the configured GTID set or list, with the configured server id in blocking mode and zero otherwise. "
  "When the GTID position needed for the connected server flavour is missing, an error is returned and nothing is requested.",
  ["configurations", "inputs"],
  "all combinations of strategy, flavour, blocking mode, boundary server ids, file names and positions, and GTID positions with 0 to 3 sources or domains and 1 to 3 intervals, over all hash orders",
  "No test serialises a command.",
  ["src/commands/dump_binlog_command.rs", "src/commands/dump_binlog_gtid_command.rs", "src/commands/register_slave_command.rs", "src/providers/mysql/mysql_provider.rs", "src/providers/mariadb/mariadb_provider.rs", "src/binlog_options.rs", "src/constants/database_provider.rs"],
  [("command serialisers", "src/commands/*"), ("flavour by server version", "database_provider.rs: from")], [], ["bytes received by the model server"])
p("C21", "Correct credentials log in through every supported login flow",
  "With the right user, password (including an empty one) and optional database, connecting to a conforming server succeeds for both supported plugins, whether used directly or after a plugin switch, with the fast and the full exchange. "
  "Every packet carries the sequence number and content the protocol requires, and when the login completes nothing the server sent is left unread.",
  ["configurations", "inputs"],
  "both flavours, both plugins advertised, account on either plugin or switched, cached or uncached, passwords and scrambles with boundary bytes and lengths, with and without database",
  "There is no test of authentication.",
  ["src/connect.rs", "src/extensions.rs", "src/commands/authenticate_command.rs", "src/commands/auth_plugin_switch_command.rs", "src/responses/handshake_packet.rs", "src/responses/auth_switch_packet.rs"],
  [("login state machine", "connect.rs: authenticate, handle_auth_plugin_switch, authenticate_sha_256"), ("scrambles", "extensions.rs: encrypt_password")], [], ["model server's view of the login"])
p("C22", "The password is never sent readable and never sent to an unsupported plugin",
  "Over an unencrypted connection no server behaviour makes the client send the password in clear or reversibly masked: only challenge responses and public-key encrypted forms leave the client, and only for the supported plugins. "
  "A server that asks for any other plugin is refused with an error, and when encryption is required but not offered the client fails before sending any credential.",
  ["inputs", "fault_sequences", "configurations"],
  "all sequences of server login responses up to a depth over an alphabet including hostile ones (unsupported plugins, switches, missing or bad keys), all encryption modes",
  "There is no test of authentication.",
  ["src/connect.rs", "src/ssl_mode.rs", "src/extensions.rs"],
  [("plugin whitelist", "connect.rs: get_auth_plugin"), ("encryption requirement checked first", "connect.rs: authenticate"), ("RSA-OAEP", "connect.rs: authenticate_sha_256")], [], ["all bytes sent by the client"])
p("C23", "A server error at any step is surfaced and stops the dialogue",
  "When the server answers any step of connecting, logging in, configuring or starting replication with an error packet, the call fails with an error carrying the server's error code and message, and the client sends nothing further. "
  "An error packet inside the event stream is yielded as an error with the server's code and message.",
  ["fault_sequences", "configurations"],
  "an error packet at every server response of every dialogue (both flavours, all login flows and strategies), with and without SQL state, and at every position of the stream",
  "There is no test with a server.",
  ["src/extensions.rs", "src/responses/error_packet.rs", "src/connect.rs", "src/configure.rs", "src/providers/mariadb/mariadb_provider.rs", "src/binlog_events.rs"],
  [("every response checked", "extensions.rs: check_error_packet and its callers")], [], ["BinlogClient::replicate result", "BinlogEvents items", "bytes sent by the client"])
p("C24", "Delivery does not depend on how the network splits or interrupts data",
  "Whatever way the network splits, delays within the timeout, or interrupts reads and writes, the client sends the server the same bytes and delivers the same events. "
  "Every event the server sends is delivered exactly once, in order, whatever its size, also when it is continued over several packets.",
  ["fault_sequences", "schedules", "inputs"],
  "every placement of up to k short or interrupted reads and writes over a whole session, byte-by-byte delivery, packet sizes around all length boundaries",
  "There is no test of the network layer.",
  ["src/packet_channel.rs", "src/binlog_events.rs"],
  [("read_exact framing and complete writes", "packet_channel.rs: read_packet, write_packet")], [], ["bytes received by the model server", "BinlogEvents items"])
p("C25", "A silent or lost connection is reported within the heartbeat timeout",
  "The server is asked for heartbeats at the configured interval and no read ever waits longer than that interval plus a fixed latency allowance. "
  "A server that stays silent longer, closes or resets the connection at any point yields an error: never an endless wait and never a normal end of the stream.",
  ["fault_sequences", "configurations", "crash_points"],
  "all heartbeat intervals of an alphabet, silence, close or reset at every byte of the dialogue and of the stream",
  "There is no test of the network layer.",
  ["src/packet_channel.rs", "src/configure.rs", "src/binlog_events.rs", "src/replica_options.rs"],
  [("socket read timeout", "packet_channel.rs: PacketChannel::new"), ("heartbeat period sent", "configure.rs: set_master_heartbeat")], [], ["virtual clock of the model network", "replicate result and items"])
p("C26", "The event stream ends exactly when the server says so",
  "The stream delivers one item per packet and ends normally exactly when the server sends its end-of-file packet, with all events before it delivered. "
  "Any packet that is neither an event, an error nor end-of-file is reported as an error, and events after a reported error packet or undecodable event are still delivered.",
  ["inputs", "histories"],
  "all sequences up to a depth of events, end-of-file, error and unknown-status packets, all 256 status bytes",
  "There is no test of the stream.",
  ["src/binlog_events.rs", "src/responses/response_type.rs"],
  [("dispatch on the status byte", "binlog_events.rs: Iterator::next")], [], ["BinlogEvents items"])
p("C27", "Starting from the end uses the server's current position, once",
  "When replication starts from the end, streaming begins at exactly the file and position the server reports as current at the first connection; on later connections it continues from the committed position instead. "
  "If the server reports no usable position, an error is returned and no streaming is requested.",
  ["histories", "configurations", "inputs"],
  "all server reports of an alphabet (row counts, file names, positions at the numeric limits), both flavours, histories of connect, commit and reconnect while the server's position moves",
  "There is no test with a server.",
  ["src/configure.rs", "src/binlog_options.rs", "src/responses/result_set_row_packet.rs"],
  [("position read only while no file name is known", "configure.rs: adjust_starting_position")], [], ["dump request seen by the model server", "client.options.binlog"])

p("C28", "Readers and clients in one process do not influence each other",
  "What a reader or a replication stream delivers depends only on its own file or connection and its own options. "
  "Any number of readers, clients and streams used in one process, in turns or on several threads, each deliver exactly the events they deliver when used alone, also when their files and servers use the same table ids, checksum settings or GTIDs differently.",
  ["schedules", "histories"],
  "every interleaving of the calls of two and three readers and clients up to a depth, every schedule of two threads up to a bound on preemptions, files and servers that use the same table ids for different tables and different checksum algorithms",
  "Tests decode single payloads; no test uses two decoders, let alone on threads.",
  ["src/binlog_reader.rs", "src/binlog_events.rs", "src/binlog_client.rs", "src/events/event_parser.rs"],
  [("all state of decoding is owned by the reader or the stream", "src/events/event_parser.rs: EventParser; src/binlog_reader.rs: BinlogReader")],
  [("table_map, checksum_type", "per parser", "src/events/event_parser.rs"), ("payload_buffer", "per reader", "src/binlog_reader.rs")],
  ["BinlogReader items", "BinlogEvents items"])
p("C29", "An event is delivered as soon as its last byte has arrived",
  "Asking for the next event returns it as soon as all its bytes are there: neither the stream nor the reader of a growing file waits for, or reads, anything that follows the event before it delivers it. "
  "The same holds for error packets and undecodable events, and while starting, no step waits for more than the server's answer to it.",
  ["schedules", "fault_sequences", "inputs"],
  "a pause before every byte of every session, every sequence of items up to a length with each arriving together with the one before or behind a pause inside it, events of every kind, events continued over several packets",
  "There is no test of the stream or of reading a file, and a fixture that is completely there cannot show what the code would wait for.",
  ["src/packet_channel.rs", "src/binlog_events.rs", "src/binlog_reader.rs"],
  [("one packet is read per item, and only its declared length", "src/packet_channel.rs: read_packet; src/binlog_events.rs: Iterator::next"), ("one event is read per item", "src/binlog_reader.rs: read_event")],
  [], ["virtual clock at the delivery of every item", "BinlogReader items"])
p("C30", "A replication owns one connection, closed when it fails or is dropped",
  "Starting replication opens exactly one connection, to the configured host and port. When starting fails, at whatever step, that connection is closed by the time the error is returned; when it succeeds, the connection stays open until the stream is dropped, and is closed then, whatever happens to the client. "
  "A reader likewise closes its file when it is refused or dropped, and not before.",
  ["histories", "fault_sequences"],
  "a failure of every kind at every step of every dialogue and at every byte sent, every stream left after any number of items, every history up to a depth of starts, failing starts, deliveries and drops with several streams of one client",
  "There is no test with a server, and a leaked connection changes no result.",
  ["src/binlog_client.rs", "src/connect.rs", "src/packet_channel.rs", "src/binlog_events.rs", "src/binlog_reader.rs"],
  [("the channel owns the socket and moves into the stream", "src/binlog_client.rs: replicate; src/binlog_events.rs: BinlogEvents::new"), ("one connect per replicate", "src/connect.rs")],
  [("stream", "the only handle of the connection", "src/packet_channel.rs")], ["connections opened and closed, seen by the model network"])
p("C31", "A reused client behaves like a new client with the same options",
  "Replicating again with a client, after any earlier sessions that ended in any way, behaves exactly as with a new client created with the options the client then holds: the same requests are sent, the same events delivered, the same positions committed. "
  "Nothing learnt in an earlier session (tables, checksum algorithm, server version, an unfinished transaction) has an effect on a later one.",
  ["histories", "configurations"],
  "every session of a set of servers left, refused or broken at every point, committed or not, followed by a session with every server, and two such sessions followed by a third",
  "There is no test with a server, so no client is ever used twice.",
  ["src/binlog_client.rs", "src/configure.rs", "src/binlog_events.rs"],
  [("replicate starts with a new channel and parser and forgets the transaction under way", "src/binlog_client.rs: replicate")],
  [("options.binlog", "the only state that outlives a session", "src/binlog_client.rs")],
  ["requests seen by the model server", "BinlogEvents items", "client.options.binlog"])

p("C32", "Replication can run forever: its cost does not grow with its history",
  "Memory held, memory requested and calls made per event do not grow with the number of events read or streamed and committed before, nor those of a session with the number of sessions before, failed ones included; the memory of an event that was delivered and dropped is given back. "
  "No counter runs out: the events and sessions beyond any number are delivered like the first. (Of tables the latest definition per id is kept, and a GTID set keeps one interval per gap.)",
  ["histories", "inputs"],
  "every cycle of events up to a length, of every kind and undecodable ones, from a file and as a stream, committed or not, every cycle of transactions, every kind of session and failing session, repeated",
  "Tests decode a payload once; growth and overflow only show in the history.",
  ["src/binlog_reader.rs", "src/binlog_events.rs", "src/packet_channel.rs", "src/binlog_client.rs", "src/events/event_parser.rs"],
  [("buffers are reused or dropped with the event, table maps replaced by id", "src/binlog_reader.rs: read_event; src/events/event_parser.rs: parse_event"), ("sequence numbers of packets wrap", "src/packet_channel.rs")],
  [("table_map", "latest definition per table id", "src/events/event_parser.rs"), ("gtid_set", "merged intervals", "src/providers/mysql/gtid/gtid_set.rs")],
  ["memory of the process", "calls to the operating system", "BinlogReader items", "BinlogEvents items"])
p("C33", "Replicating and committing change no option but the position",
  "Starting replication, whether it succeeds or fails, reading the stream and committing leave every option of the client (host, port, user, password, database, server id, encryption, blocking mode, heartbeat interval, starting strategy) as the application set it. "
  "The position itself only moves by commits and by the first start from the end of the log; reading alone never moves it.",
  ["histories", "configurations", "fault_sequences"],
  "every login flow, server, strategy, mode, server id and database, the session left, refused or broken anywhere, committed or not, twice",
  "There is no test that starts a client; a changed option only shows in the next session.",
  ["src/binlog_client.rs", "src/replica_options.rs", "src/configure.rs"],
  [("options are read, and only options.binlog is written", "src/binlog_client.rs: replicate, commit")],
  [("options", "public configuration of the client", "src/replica_options.rs")], ["client.options"])
p("C34", "Commit accepts any event at any time and moves the position to nothing else",
  "Committing any decoded event, in any order and from any starting position, never panics; the file position becomes the end position of that event (or the target of that rotation) or stays; the GTID position stays or gains exactly the GTID committed last; and committing the same event again changes nothing.",
  ["histories", "inputs"],
  "every sequence of decoded events of every kind up to a length, with positions and numbers at the ends of their ranges, from every starting position, with and without a GTID set or list",
  "There is no test of commit.",
  ["src/binlog_client.rs", "src/providers/mysql/gtid/gtid_set.rs", "src/providers/mariadb/gtid/gtid_list.rs"],
  [("commit updates the GTID position at the end of a transaction and the file position at every event", "src/binlog_client.rs: commit")],
  [("gtid under way", "the transaction whose events are being committed", "src/binlog_client.rs")], ["client.options.binlog"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
