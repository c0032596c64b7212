#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so that ids stay stable)."""
import json, os
P = []
PC = "mbus/mbus-protocol.c"; AX = "mbus/mbus-protocol-aux.c"; SE = "mbus/mbus-serial.c"; TC = "mbus/mbus-tcp.c"
T0 = ("The stable tests decode about 110 recorded frames and compare XML; ")
def p(id, title, st, over, q, why, files, mech, obs=None, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q),
      why_tests_cant=T0 + why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=obs or [], state=state or [], hook_needed=None)))

p("C01", "A byte buffer is accepted as a frame exactly when it is a valid frame",
  "Parsing a buffer succeeds exactly when it starts with the single-character acknowledge or is one complete short, control or long frame with correct start bytes, equal length bytes, permitted control code, correct arithmetic checksum and stop byte. On success the frame's type and every field (control, address, control information, data bytes and their count, checksum) equal the bytes at their wire positions. Every other buffer that has reached or passed the length its header announces, or whose header announces no frame, gives a negative result.",
  ["inputs"], "every byte string of 0..300 bytes (a frame has at most 261 bytes)",
  "they feed complete recorded frames, and a handful of broken ones, so almost no corrupted byte, length or control code is tried.",
  [PC], [("mbus_parse", PC), ("mbus_frame_verify", PC), ("calc_checksum", PC), ("calc_length", PC)], ["mbus_parse return value and *frame"])
p("C02", "Incremental parsing asks for exactly the bytes that are still missing",
  "For every proper prefix of a frame the parser returns a positive count that never exceeds the number of bytes still missing from that frame, and equals it once the header that determines the length has been seen. Feeding the requested number of bytes again and again therefore reaches the end of the frame exactly, never past it. A positive result is returned only for a buffer whose first bytes announce a frame longer than the buffer.",
  ["inputs", "histories"], "every prefix of every byte string, every way of cutting a frame into chunks",
  "they never call the parser on a partial frame.",
  [PC], [("mbus_parse positive results", PC)], ["mbus_parse return value"])
p("C03", "Packing writes exactly the wire image and parsing it gives the frame back",
  "Packing an acknowledge, short, control or long frame into a large enough buffer returns the wire length and writes exactly the start bytes, length bytes, header fields, data, arithmetic checksum and stop byte of that frame, and nothing behind them. A buffer that is too small, a null argument, an unknown type or more data than a frame can hold gives a negative result and no byte is written outside the buffer. Parsing the packed bytes of a frame with a permitted control code succeeds and yields the same frame.",
  ["inputs"], "every frame type, every field value, data size 0..252 and beyond, every buffer size",
  "nothing in the suite packs a frame.",
  [PC], [("mbus_frame_pack", PC), ("mbus_frame_calc_length", PC), ("mbus_frame_calc_checksum", PC)], ["bytes written by mbus_frame_pack"])
p("C04", "Frame self-check accepts exactly consistent frames",
  "Verifying a frame structure returns zero exactly when its type is known and its start, length, control code, stop and checksum fields are consistent with that type and its data, an acknowledge frame needing only its start byte. Every other structure, and a null pointer, gives a non-zero result, and verification never changes the frame. Frames freshly created, filled and packed by the library are accepted.",
  ["inputs"], "every value of every field of the frame structure",
  "verification is only reached through frames that parsed, and never for acknowledge frames.",
  [PC], [("mbus_frame_verify", PC)], ["mbus_frame_verify return value"])
p("C05", "BCD numbers decode to their value and encoding is the inverse",
  "Decoding BCD data yields the decimal number its digits spell, least significant byte first, with a most significant digit of F meaning a negative number; the hexadecimal variant yields the bytes as one little-endian number. Encoding an integer and decoding it again returns the integer whenever it fits in the given number of bytes. Null or empty input is rejected without touching memory outside the data.",
  ["inputs"], "every byte string of 0..8 bytes; every int value and size for encoding",
  "a few dozen BCD fields occur in them, hardly any negative or invalid ones, and nothing is ever encoded.",
  [PC], [("mbus_data_bcd_decode", PC), ("mbus_data_bcd_decode_hex", PC), ("mbus_data_bcd_encode", PC)], ["return values and bytes"])
p("C06", "Binary integers decode as two's complement and encode back",
  "Decoding 1 to 4 bytes into an int, or 1 to 8 bytes into a long or long long, yields the little-endian two's complement number of exactly those bytes. Encoding an int into n bytes writes its n low-order little-endian bytes, so that decoding returns the same number whenever it fits. Null data or a zero size is rejected.",
  ["inputs"], "every byte string of 1..8 bytes, every int, every size",
  "only a few sizes and values occur in recorded frames.",
  [PC], [("mbus_data_int_decode", PC), ("mbus_data_long_decode", PC), ("mbus_data_long_long_decode", PC), ("mbus_data_int_encode", PC)], ["*value and return value"])
p("C07", "Real, text and binary payloads decode faithfully and stay in bounds",
  "A 4-byte real decodes to the IEEE 754 single with those little-endian bytes. A text payload of n bytes decodes to those bytes in reverse order followed by a terminator, and writes exactly n+1 bytes. A binary payload decodes to the upper-case hexadecimal pairs of its bytes, last byte first, separated by single blanks and terminated, truncated at whole pairs so that it never exceeds the given buffer.",
  ["inputs"], "every payload of every length a record can carry and every destination size",
  "they contain a few short strings, one buffer size and no truncation.",
  [PC], [("mbus_data_float_decode", PC), ("mbus_data_str_decode", PC), ("mbus_data_bin_decode", PC)], ["destination buffer"])
p("C08", "Date and time fields decode to the encoded calendar fields",
  "Decoding a 2-byte date, a 4-byte date and time or a 6-byte date and time yields exactly the day, month, year, hour, minute, second and daylight-saving bit encoded in the field's bits, the 4-byte form applying its century bits and the two-digit-year rule. A time marked invalid and any other size yield an all-zero result. No bytes beyond the given size are read.",
  ["inputs"], "every byte string of 0..8 bytes",
  "they hold a few dozen timestamps and neither centuries nor invalid times in general.",
  [PC], [("mbus_data_tm_decode", PC)], ["struct tm"])
p("C09", "Manufacturer codes convert between letters and the 16-bit number",
  "The numeric manufacturer id of a three-letter code is the 5-bit packing of its letters in either case, and zero is returned for anything that is not at least three letters. Encoding a code to two bytes and decoding those bytes returns the same three upper-case letters, and the two bytes form the numeric id in little-endian order.",
  ["inputs"], "every character string; every pair of bytes",
  "some ten manufacturers occur in them.",
  [PC], [("mbus_manufacturer_id", PC), ("mbus_data_manufacturer_encode", PC), ("mbus_decode_manufacturer", PC)], ["return values"])
p("C10", "Variable data is split into records exactly as its DIF/VIF blocks say",
  "For every frame the parser skips filler bytes and splits the rest into consecutive records whose DIF, DIF extensions, VIF, plain-text VIF, VIF extensions and payload are exactly the frame's bytes, the payload length being the one the DIF or the length byte prescribes, and a manufacturer-specific or more-records marker taking all remaining bytes. The result is success exactly when all records fit in the data with at most ten DIF and ten VIF extensions and a plain-text VIF that fits its field; otherwise it is an error. No byte outside the frame's data or the record is read or written, and every record parsed is in the list, in order and counted.",
  ["inputs"], "every data field of 0..252 bytes, any number of records",
  "a few hundred well-formed records; truncation at every offset, maximal extension counts and payloads are not reached.",
  [PC], [("mbus_data_variable_parse", PC), ("mbus_dif_datalength_lookup", PC), ("mbus_data_record_append", PC)], ["record list"])
p("C11", "Frame payloads are dispatched and their fixed parts copied faithfully",
  "Interpreting a frame's payload succeeds only for slave-to-master frames whose control information denotes an error report, a fixed-data or a variable-data response in the supported byte order, and the result's type says which. The fixed-data fields, the variable-data header and the error code equal the payload bytes at their positions, an empty error report being code 0. Payloads too short for their kind, other directions and unsupported control information codes are rejected, and nothing outside the payload is read.",
  ["inputs"], "every frame: control, control information, data and data size",
  "few fixed and error frames, none with an unexpected size or direction combination.",
  [PC], [("mbus_frame_data_parse", PC), ("mbus_data_fixed_parse", PC), ("mbus_data_variable_parse header", PC), ("mbus_frame_direction", PC)], ["mbus_frame_data"])
p("C12", "The text of a record value is the decoded value of its payload",
  "The text rendered for a data record's value is the decimal, real, date, date-and-time, text or binary rendering of its payload that its DIF and VIF select, with the documented formats for dates and for digit sequences, and empty for payload-less records. Rendering never reads outside the record's payload field, never writes outside its text buffer and always terminates the text.",
  ["inputs"], "every DIF, VIF, VIF extension and payload of a record the parser can produce",
  "a few hundred records, few DIF and VIF combinations.",
  [PC], [("mbus_data_record_value", PC), ("mbus_data_record_decode", PC)], ["returned text"])
p("C13", "Storage number, tariff, device and function gather the right DIF bits",
  "A record's storage number is bit 6 of the DIF followed by the four low bits of every DIF extension, its tariff the concatenation of bits 4-5 and its device the concatenation of bit 6 of the extensions, least significant first, for any number of extensions the format allows. Tariff and device are reported as absent when there is no extension. The function text is the one of DIF bits 4-5.",
  ["inputs"], "every DIF and every sequence of 0..10 extensions",
  "records with at most three extensions.",
  [PC], [("mbus_data_record_storage_number", PC), ("mbus_data_record_tariff", PC), ("mbus_data_record_device", PC), ("mbus_data_record_function", PC)], ["return values"])
p("C14", "Unit and medium texts follow the code tables",
  "The unit text of a value information block is the one its VIF code (primary, FB and FD tables, with its decimal exponent) denotes, a plain-text VIF yielding its own text; medium, fixed-data unit, application-error and data-length look-ups likewise return the entry of the code. Codes outside the tables give the documented reserved or unknown text. Every look-up returns a terminated text and writes only its own buffer.",
  ["inputs"], "every byte value of VIF, first VIF extension, medium, unit, error and DIF",
  "only the codes that occur in recorded frames.",
  [PC], [("mbus_vib_unit_lookup", PC), ("mbus_vif_unit_lookup", PC), ("mbus_vib_unit_lookup_fb", PC), ("mbus_vib_unit_lookup_fd", PC), ("mbus_data_variable_medium_lookup", PC), ("mbus_data_fixed_medium", PC), ("mbus_data_fixed_unit", PC), ("mbus_data_error_lookup", PC), ("mbus_dif_datalength_lookup", PC)], ["returned text"])
p("C15", "Normalised values carry the unit, quantity and power of ten of their code",
  "Normalising a value with a VIF (primary, FB or FD table) or a fixed-data unit code yields the value multiplied by that code's power of ten, and that code's base unit and quantity, as tabulated by the standard. Codes that are not in the tables, and fixed-data codes that stand for a time, are reported by a negative result; a plain-text VIF yields its own text as quantity and the value unchanged. The first VIF extension after a primary VIF corrects the result when it is a multiplicative (10^(n-6), 10^3) or additive (10^(n-3)) correction.",
  ["inputs"], "every VIF, VIF extension and fixed unit code",
  "only the codes that occur in recorded frames; the fixed table is hardly touched.",
  [AX], [("vif_table", AX), ("mbus_vif_unit_normalize", AX), ("mbus_vib_unit_normalize", AX), ("fixed_table", AX), ("mbus_fixed_normalize", AX)], ["*value_out, *unit_out, *quantity_out"])
p("C16", "XML escaping is exact and bounded",
  "Escaping a terminated text writes the text with the five XML special handling rules applied (ampersand, less-than, greater-than and quote as entities, control characters as blanks or dropped as documented) and every other character unchanged and in order. The output never exceeds the given size, is always terminated, and is cut only at a whole character or entity. Null arguments are rejected.",
  ["inputs"], "every text and every destination size",
  "no recorded frame fills the buffer or contains more than one special character.",
  [PC], [("mbus_str_xml_encode", PC)], ["destination buffer"])
p("C17", "XML output is built without leaving its buffer, leaking or double freeing",
  "For every parsed frame, including chains of several telegrams of any kinds, building the XML text (plain or normalised) never writes outside its buffer, never uses or frees memory twice, and returns either null or one terminated text that starts with the declaration and the root element and ends with the closing root element. Each record appears exactly once and in order. Every other allocation made on the way is released, also when an allocation or a parse fails.",
  ["inputs", "fault_sequences"], "every record text length, every number of records and telegrams, every allocation failure",
  "recorded frames have short texts; no multi-telegram chain and no failing allocation is tested.",
  [PC, AX], [("mbus_data_variable_xml", PC), ("mbus_frame_xml", PC), ("mbus_data_variable_xml_normalized", AX), ("mbus_data_variable_record_xml", PC)], ["returned buffer, heap"])
p("C18", "Hex text converts to exactly the bytes it spells",
  "Converting hexadecimal text yields, for each successive pair of hexadecimal digits with blanks between pairs skipped, the byte it spells, and returns the number of bytes. Conversion stops at the first pair that is not two hexadecimal digits, and never writes more than the destination size or reads beyond the source length. Null arguments give zero.",
  ["inputs"], "every text, every source and destination length",
  "they only convert well-formed hex dumps that fit.",
  [AX], [("mbus_hex2bin", AX)], ["destination and return value"])
p("C19", "Secondary addresses are validated, packed and extracted consistently",
  "A text is a secondary address exactly when it has 16 characters, all hexadecimal digits, with F as wildcard. Packing one into a selection frame writes a long frame to the network-layer address whose eight data bytes are the id, manufacturer, version and medium nibbles the text spells; an invalid text is rejected and leaves the frame unchanged. The address text extracted from a variable-data reply selects, when packed, exactly that reply's id, manufacturer, version and medium.",
  ["inputs"], "every 16-character text and other strings; every reply header",
  "no test selects or extracts a secondary address.",
  [PC], [("mbus_is_secondary_address", PC), ("mbus_frame_select_secondary_pack", PC), ("mbus_frame_get_secondary_address", PC)], ["frame data, returned text"])
p("C20", "Serial reception delivers exactly one frame however bytes arrive",
  "For every byte stream and every way reads split, stall or fail, receiving from a serial line returns OK exactly when the bytes read form one valid frame, and has then consumed exactly that frame's bytes. Silence gives a timeout, repeated silence inside a frame or a malformed frame gives invalid, a closed or failing line gives an error. It never reads past the frame announced so far, never overflows its buffer and always ends within a bounded number of reads.",
  ["inputs", "schedules", "fault_sequences"], "every stream content and every sequence of read results",
  "no test opens a serial line.",
  [SE], [("mbus_serial_recv_frame", SE)], ["return code, bytes consumed"])
p("C21", "TCP reception delivers exactly one frame however bytes arrive",
  "For every byte stream and every way reads split, are interrupted, time out or fail, receiving from a TCP connection returns OK exactly when the bytes read form one valid frame, and has then consumed exactly that frame's bytes. A read timeout gives timeout, a closed connection reset, another failure error, and a malformed frame invalid. It never reads past the frame announced so far and never overflows its buffer.",
  ["inputs", "schedules", "fault_sequences"], "every stream content and every sequence of read results",
  "no test opens a socket.",
  [TC], [("mbus_tcp_recv_frame", TC)], ["return code, bytes consumed"])
p("C22", "Sending writes the whole frame once or reports failure",
  "Sending a frame over serial or TCP hands the transport exactly the packed bytes of that frame, reports them to the send callback once and returns success only when all of them were written. A frame that cannot be packed, a null handle or frame, or a failed or short write is reported as an error, and a frame that cannot be packed sends nothing.",
  ["inputs", "fault_sequences"], "every frame and every write result",
  "no test sends anything.",
  [SE, TC, AX], [("mbus_serial_send_frame", SE), ("mbus_tcp_send_frame", TC), ("mbus_send_frame", AX)], ["bytes passed to write"])
p("C23", "Each request primitive puts its exact telegram on the bus",
  "Request, ping, application reset, baud-rate switch, user data, selection and set-primary-address each send exactly one telegram with the control code, address, control information and data the protocol prescribes for its arguments. Arguments outside the permitted ranges (address, new address 0 to 250, baud rate, subcode, data size, malformed selection mask) send nothing and report an error. A transport failure is reported and the temporary frame is released.",
  ["inputs", "fault_sequences"], "every argument value",
  "no test sends anything.",
  [AX], [("mbus_send_request_frame", AX), ("mbus_send_ping_frame", AX), ("mbus_send_application_reset_frame", AX), ("mbus_send_switch_baudrate_frame", AX), ("mbus_send_user_data_frame", AX), ("mbus_send_select_frame", AX), ("mbus_set_primary_address", AX)], ["frame passed to the transport"])
p("C24", "A request/response exchange follows the frame-count-bit protocol",
  "A readout sends REQ_UD2 requests, repeats an unanswered request unchanged at most the configured number of times, and flips the frame count bit only to fetch a further telegram of the same answer. It returns success only when a complete answer, or the requested maximum of telegrams, has been collected, with the telegrams chained in order behind the reply and never more than the requested maximum (zero meaning no limit). On every outcome it ends after a bounded number of requests per telegram and leaves no leaked, shared or doubly owned telegram.",
  ["histories", "fault_sequences", "inputs"], "every sequence of receive results and replies, every retry limit and maximum",
  "no test talks to a bus.",
  [AX], [("mbus_sendrecv_request", AX)], ["requests sent, reply chain"])
p("C25", "Selection and probing classify what answered and nothing else",
  "Selecting a secondary address reports nothing after silence, single after one acknowledge, collision when the answer is garbled or more than one device answers, and error when the mask is malformed or sending or receiving fails; a reply that is no acknowledge counts as nothing. Probing a mask reports single only when a following readout returned a reply whose own secondary address is delivered to the caller, terminated and within its 17 bytes. The found callback is raised exactly then. Reading a slave asks exactly one device: by its primary address, or after its secondary address was selected with the result single, and succeeds only when a frame was received.",
  ["histories", "fault_sequences"], "every sequence of send and receive results",
  "no test talks to a bus.",
  [AX], [("mbus_select_secondary_address", AX), ("mbus_probe_secondary_address", AX), ("mbus_read_slave", AX)], ["result codes, matching address"])
p("C26", "Scanning enumerates every address matching the mask exactly once",
  "Scanning a secondary address mask probes, for each position, every digit 0 to 9 when the digit is a wildcard and only the given digit otherwise, descends exactly into masks that collide, and stops and reports failure when a probe fails. The caller's mask is restored or left unchanged, invalid positions and masks are rejected, and all temporary memory is released.",
  ["inputs", "histories"], "every mask, position and sequence of probe results",
  "no test scans.",
  [AX], [("mbus_scan_2nd_address_range", AX)], ["probed masks"])
p("C27", "Receiving through a handle reports, purges and time-stamps correctly",
  "Receiving through a handle returns the transport's result, invokes the transport once more only to skip the master's own echo when purging is enabled, and stamps the frame with the reception time. A frame travelling master to slave is never delivered as an answer while purging is enabled and another frame follows. Null arguments are rejected.",
  ["histories", "fault_sequences"], "every sequence of transport results and frames",
  "no test talks to a bus.",
  [AX], [("mbus_recv_frame", AX), ("mbus_frame_direction", PC)], ["return code, frame"])
p("C28", "Handles are created, configured and destroyed consistently",
  "A new serial or TCP context has its documented defaults, its own copy of the device or host name, and no open descriptor; when an allocation fails null is returned and nothing leaks. Setting an option changes exactly that option when the value is within its documented range and otherwise fails leaving the handle unchanged. Freeing a context releases everything once, and a failed connect leaves no open or stale descriptor.",
  ["inputs", "fault_sequences", "histories"], "every option value, name, and allocation failure",
  "no test creates a handle.",
  [AX, SE, TC], [("mbus_context_serial", AX), ("mbus_context_tcp", AX), ("mbus_context_set_option", AX), ("mbus_context_free", AX)], ["handle fields"])
p("C29", "Packing parsed data back into a frame reproduces the data",
  "Packing interpreted frame data back into a frame produces, for variable, fixed and error data, exactly the bytes from which parsing yields the same data again, including extensions, plain-text VIFs and marker records. Data that does not fit into a frame is rejected. Null arguments are rejected and nothing outside the frame is written.",
  ["inputs"], "every record list, header and fixed data block",
  "nothing in the suite packs data.",
  [PC], [("mbus_frame_internal_pack", PC)], ["frame data bytes"])
p("C30", "Frames and records are owned by their lists and freed exactly once",
  "A new frame or record is zero-initialised with the start, length and stop fields of its type, or null when memory is exhausted. Appending keeps all earlier records in order with the new one last, and freeing a frame or record chain of any length releases every element exactly once. Null is accepted and reported where documented.",
  ["inputs", "histories", "fault_sequences"], "every chain length and type, allocation failures",
  "leaks and double frees are invisible to them, and no frame chain occurs.",
  [PC], [("mbus_frame_new", PC), ("mbus_frame_free", PC), ("mbus_data_record_new", PC), ("mbus_data_record_free", PC), ("mbus_data_record_append", PC), ("mbus_frame_data_new", PC), ("mbus_frame_data_free", PC)], ["heap"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
