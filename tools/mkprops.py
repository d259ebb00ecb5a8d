#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here for editing)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
PR, AX, SE, TC = "mbus/mbus-protocol.c", "mbus/mbus-protocol-aux.c", "mbus/mbus-serial.c", "mbus/mbus-tcp.c"
T110 = "The 110 tests convert one fixed set of recorded frames to XML; "

p("C01", "The frame parser accepts exactly the well-formed M-Bus frames",
  "Parsing a byte string succeeds if and only if it begins with an acknowledge byte, or is exactly one well-formed short, control or long frame (start/stop bytes, equal length fields, known control code, correct checksum, no trailing bytes), and then every field and payload byte of the resulting frame equals the wire bytes. While a started frame is incomplete the parser returns exactly the number of bytes it still needs; every other byte string yields a negative result.",
  ["inputs"], "every byte string of up to 262 bytes (the longest M-Bus frame is 261)",
  T110 + "all of them well formed but a handful, so neither the rejected frames nor the remaining-length answers for partial input are exercised.",
  [PR], [("mbus_parse", PR), ("mbus_frame_verify", PR)], ["mbus_parse"])
p("C02", "Packing a frame emits exactly its wire image, or nothing at all",
  "Packing any frame object of a known type yields exactly the wire bytes of that frame - computed length fields and checksum included - when the buffer is large enough, returns their number and writes nothing beyond them; with a buffer that is too small, or an unknown type, or a payload larger than the 252 bytes a frame can carry, it returns a negative value and writes nothing. Whatever packs with a valid start, stop and control byte parses back to the same frame.",
  ["inputs"], "every frame object (all field values, payload 0..252 bytes and beyond) and every buffer size",
  "The tests never pack a frame.",
  [PR], [("mbus_frame_pack", PR), ("mbus_frame_calc_length", PR), ("mbus_frame_calc_checksum", PR)], ["mbus_frame_pack", "mbus_parse"])
p("C03", "Frame verification agrees with the protocol for every frame object",
  "Verifying a frame object reports success (zero) exactly when its start, length, checksum, stop and control fields are those of a valid frame of its type, and a negative value otherwise; this holds for acknowledge, short, control and long frames alike. A newly created frame has the start, stop and length bytes of its type, and a frame's direction is that of its control field.",
  ["inputs"], "every combination of frame type and field values, payload up to 252 bytes",
  "Tests verify only frames that came out of a successful read of a file, and never an acknowledge frame.",
  [PR], [("mbus_frame_verify", PR), ("mbus_frame_new", PR), ("mbus_frame_direction", PR)], ["mbus_frame_verify", "mbus_frame_new", "mbus_frame_direction"])
p("C04", "Parsing any response payload is memory-safe, terminates and leaks nothing",
  "For any received frame, interpreting its payload finishes, reads nothing outside the frame's payload and writes nothing outside the structures it fills, whatever the payload bytes are. Afterwards, on success and on every error (including an allocation failure at any point), releasing the data object gives back every block that was allocated.",
  ["inputs", "fault_sequences"], "every payload of up to 252 bytes (with at most the stated number of record bytes symbolic) and every single allocation failure",
  T110 + "a malformed DIF/VIF chain, an over-long string or a failed allocation needs byte combinations no recorded frame has.",
  [PR], [("mbus_data_variable_parse", PR), ("mbus_frame_data_parse", PR), ("mbus_frame_data_free", PR), ("mbus_data_record_free", PR)], ["mbus_frame_data_parse", "mbus_frame_data_free"])
p("C05", "Variable-data records are delimited and extracted as the protocol defines",
  "A variable-data payload is decoded into exactly the sequence of records that EN 13757-3 defines: header bytes, DIF with its DIFEs, VIF with optional plain-text VIF and VIFEs, data length from the DIF or the LVAR byte, data bytes in order, idle fillers skipped, and a 0Fh/1Fh record taking the rest (1Fh setting the more-records flag). A payload that ends inside a record, or has more extensions than fit, is reported as an error.",
  ["inputs"], "every payload with up to the stated number of record bytes, every DIF/VIF/LVAR value",
  T110 + "each shows a few common DIF/VIF shapes; extension chains, LVAR classes and truncation points are combinatorial.",
  [PR], [("mbus_data_variable_parse", PR), ("mbus_dif_datalength_lookup", PR)], ["mbus_data_variable_parse"])
p("C06", "Responses are dispatched by direction and CI field, and fixed data extracted",
  "A slave response is interpreted as an application error, as fixed-length or as variable-length data exactly according to its control-information field; frames sent by the master, unknown CI values, empty payloads and fixed payloads whose size is not 16 are rejected. Fixed data fields equal the payload bytes, and an application error carries the payload's error code (zero if there is none).",
  ["inputs"], "every control byte, CI byte, payload size and payload content (fixed data)",
  T110 + "two or three of which are fixed or error frames.",
  [PR], [("mbus_frame_data_parse", PR), ("mbus_data_fixed_parse", PR)], ["mbus_frame_data_parse"])
p("C07", "Binary integers are two's complement, little endian, at every width",
  "Decoding a binary integer of 1 to 4 bytes (int), 1 to 8 bytes (long, long long) yields the little-endian two's-complement value, sign-extended from its own width, and a zero size or missing buffer is rejected. Encoding an int into n bytes and decoding it again gives the same value whenever it fits, and encoding writes only those n bytes.",
  ["inputs"], "every byte content, size 0..9, every int value",
  "Tests decode a few dozen fixed values and never encode.",
  [PR], [("mbus_data_int_decode", PR), ("mbus_data_long_decode", PR), ("mbus_data_long_long_decode", PR), ("mbus_data_int_encode", PR)], ["mbus_data_int_decode", "mbus_data_long_decode", "mbus_data_long_long_decode", "mbus_data_int_encode"])
p("C08", "BCD numbers decode to their decimal value and survive encode/decode",
  "Decoding n BCD bytes yields the decimal number whose digits they are, least significant byte first, and its negation when the most significant nibble is Fh. Encoding any number that fits into n bytes and decoding the result returns that number.",
  ["inputs"], "every byte content for sizes 1..6 and every int for the encoder",
  "Tests hold a few dozen positive BCD values and never encode.",
  [PR], [("mbus_data_bcd_decode", PR), ("mbus_data_bcd_encode", PR), ("mbus_data_bcd_decode_hex", PR)], ["mbus_data_bcd_decode", "mbus_data_bcd_encode"])
p("C09", "Date and time values decode per types F, G and I for every bit pattern",
  "Decoding a 2-, 4- or 6-byte time point yields exactly the day, month, year, hour, minute and second that data types G, F and I define, with an invalid-marked value decoding to an all-zero time and everything outside those fields cleared; other sizes decode to all zero. No byte content makes the resulting date fields exceed the ranges their bit fields allow.",
  ["inputs"], "all 2-byte, 4-byte and 6-byte patterns",
  "Tests contain a few plausible dates.",
  [PR], [("mbus_data_tm_decode", PR)], ["mbus_data_tm_decode"])
p("C10", "Four-byte reals decode to the IEEE 754 value they encode",
  "Decoding four bytes as a real number gives exactly the IEEE 754 single-precision number with that little-endian bit pattern, for zeros, denormals, normals, infinities and NaNs.",
  ["inputs"], "all 2^32 bit patterns",
  "Tests contain a handful of reals.",
  [PR], [("mbus_data_float_decode", PR)], ["mbus_data_float_decode"])
p("C11", "String and binary decoding stay in bounds and lose nothing",
  "Decoding an n-byte string writes the n bytes in reverse order followed by a terminator and nothing else. Decoding n bytes as binary text writes two upper-case hexadecimal digits per byte separated by single blanks, stops before the given capacity, and always terminates the text inside it.",
  ["inputs"], "every content, lengths up to the stated bound, every capacity",
  "Tests never decode into a buffer that is nearly too small.",
  [PR], [("mbus_data_str_decode", PR), ("mbus_data_bin_decode", PR)], ["mbus_data_str_decode", "mbus_data_bin_decode"])
p("C12", "A record's value text is its data decoded by the type its DIF and VIF announce",
  "The textual value of a variable record is the decimal, BCD, hexadecimal, real, date, date-time, text or binary rendering of its data bytes selected by the data field of its DIF (and the date/time VIFs); for error-state BCD it is the raw hexadecimal digits. Neither extension bits nor unrelated header fields influence it, and the text always fits its buffer.",
  ["inputs"], "every DIF, VIF, first VIFE and data content (data length up to the stated bound)",
  T110 + "which cover one or two values per DIF.",
  [PR], [("mbus_data_record_decode", PR), ("mbus_data_record_value", PR)], ["mbus_data_record_value", "mbus_data_record_decode"])
p("C13", "Storage number, tariff, device and function follow the DIF/DIFE bits",
  "The storage number is assembled from the DIF bit 6 and four bits per DIFE, the tariff from two bits and the device from one bit per DIFE, least significant first, for the whole supported chain of ten DIFEs; without DIFEs tariff and device are absent (-1). The function text follows the two function bits of the DIF.",
  ["inputs"], "every DIF and every chain of 0..10 DIFEs",
  "No recorded frame has more than three DIFEs.",
  [PR], [("mbus_data_record_storage_number", PR), ("mbus_data_record_tariff", PR), ("mbus_data_record_device", PR), ("mbus_data_record_function", PR)], ["mbus_data_record_storage_number", "mbus_data_record_tariff", "mbus_data_record_device", "mbus_data_record_function"])
p("C14", "XML escaping is complete, truncates safely and is reversible",
  "Escaping any string for XML yields text without raw markup characters or control characters, whose unescaping gives back the original string with control characters replaced, as long as it fits; when it does not fit the output is the escaping of a prefix, made of whole escape sequences and leaving less than one sequence's room unused. The result is always terminated within the given capacity.",
  ["inputs"], "every string and capacity up to the stated bound",
  "Only a few test frames contain a character that needs escaping, none truncates.",
  [PR], [("mbus_str_xml_encode", PR)], ["mbus_str_xml_encode"])
p("C15", "XML generation never overruns its buffer, whatever the data",
  "Generating XML for any parsed data - any number of records, any text or unit of any length up to the maximum and any characters - stays within the memory allocated for it and returns a terminated document containing every record in order. When memory runs out it returns no document and releases what it took.",
  ["inputs", "fault_sequences"], "every sequence of record text lengths up to the stated number of records, every allocation failure",
  T110 + "whose records are all short; the buffer grows only by an estimate of a record's size.",
  [PR, AX], [("mbus_data_variable_xml", PR), ("mbus_frame_xml", PR), ("mbus_data_variable_xml_normalized", AX), ("mbus_data_variable_record_xml", PR)], ["mbus_frame_data_xml", "mbus_frame_xml", "mbus_frame_data_xml_normalized"])
p("C16", "XML shows the decoded content: each element carries the value it names",
  "The XML of a record shows its number, frame number, function, storage number, tariff and device (when present), unit, value and timestamp as decoded from the record, each in its own element, properly escaped; header and fixed-data XML show identification, manufacturer, version, medium, access number, status and signature of the data.",
  ["inputs"], "every DIF/DIFE/VIF and short data content for records; every header and fixed-data content",
  T110 + "each fixes one combination of fields.",
  [PR], [("mbus_data_variable_record_xml", PR), ("mbus_data_variable_header_xml", PR), ("mbus_data_fixed_xml", PR), ("mbus_data_error_xml", PR)], ["mbus_data_variable_record_xml", "mbus_data_variable_header_xml", "mbus_data_fixed_xml"])
p("C17", "Multi-telegram replies render completely and release each block once",
  "For any chain of reply frames, rendering the chain as one document uses every block once: nothing is read or released after it was released and nothing is left over, whichever frame of the chain fails to parse or is of another kind. Records of all frames appear in order, numbered consecutively, under the number of their frame.",
  ["inputs", "histories"], "chains of up to three frames of any kind (variable, fixed, error, malformed)",
  "Tests read single frames only.",
  [PR], [("mbus_frame_xml", PR), ("mbus_frame_free", PR)], ["mbus_frame_xml"])
p("C18", "Secondary addresses extract, validate and pack consistently",
  "A secondary address mask is accepted exactly when it consists of 16 characters forming eight hexadecimal identification digits (F being a wildcard), manufacturer, version and medium in hexadecimal; the selection frame packed from it carries precisely those digits in protocol order. The address text extracted from a variable-data reply, packed again, selects exactly that meter.",
  ["inputs"], "every 16-character string, strings of other lengths up to 18, and every reply header",
  "Tests do not touch addressing.",
  [PR], [("mbus_frame_select_secondary_pack", PR), ("mbus_frame_get_secondary_address", PR), ("mbus_is_secondary_address", PR), ("mbus_is_primary_address", PR)], ["mbus_frame_select_secondary_pack", "mbus_frame_get_secondary_address", "mbus_is_secondary_address", "mbus_is_primary_address"])
p("C19", "Each command puts exactly its protocol frame on the bus, or nothing",
  "Ping, request, application reset, set-primary-address, switch-baudrate, user-data and secondary-selection commands send exactly one frame with the control, address, CI and data bytes the protocol assigns to them and to their arguments. When an argument is outside its documented range, or the handle is missing, nothing is sent and an error is returned; a failing send is reported.",
  ["inputs", "fault_sequences"], "every address, subcode, baud rate and payload (size up to the bound), send success or failure",
  "No test sends anything.",
  [AX], [("mbus_send_request_frame", AX), ("mbus_send_ping_frame", AX), ("mbus_send_switch_baudrate_frame", AX), ("mbus_send_application_reset_frame", AX), ("mbus_set_primary_address", AX), ("mbus_send_user_data_frame", AX), ("mbus_send_select_frame", AX)], ["the send callback of the handle"])
p("C20", "Serial reception reassembles a frame under any fragmentation and timeout",
  "However the bytes of a reply are split over reads, and with pauses the receiver tolerates in between, receiving from a serial line returns the frame that was sent; bytes beyond the frame are not consumed. Silence is reported as a timeout, a malformed or incomplete reply as invalid, a failing line as an error, and no sequence of line events makes the receiver hang or leave its buffer.",
  ["inputs", "schedules", "fault_sequences"], "every byte content of frames up to the bound and every sequence of read results up to the bound",
  "No test has a serial line.",
  [SE], [("mbus_serial_recv_frame", SE)], ["mbus_recv_frame on a serial handle"])
p("C21", "TCP reception reassembles a frame under any fragmentation and failure",
  "However the bytes of a reply are split over socket reads, interrupted reads included, receiving from a TCP gateway returns the frame that was sent and consumes no byte beyond it. A closed connection is reported as reset, a read timeout as timeout, a malformed reply as invalid and any other failure as an error; no sequence of socket results makes the receiver hang or leave its buffer.",
  ["inputs", "schedules", "fault_sequences"], "every byte content of frames up to the bound and every sequence of read results up to the bound",
  "No test has a socket.",
  [TC], [("mbus_tcp_recv_frame", TC)], ["mbus_recv_frame on a TCP handle"])
p("C22", "Receiving drops exactly the echo the handle is configured to drop",
  "Receiving a frame discards at most one leading frame, and only if echo cancellation is configured for that frame's direction; the frame then delivered is the next one, and it carries the time of reception. Purging the line reads until nothing more arrives and reports whether anything did.",
  ["histories", "configurations"], "every purge option and every sequence of up to four reception results and directions",
  "No test receives.",
  [AX], [("mbus_recv_frame", AX), ("mbus_purge_frames", AX)], ["mbus_recv_frame", "mbus_purge_frames"])
p("C23", "A request collects all telegrams with correct retries and frame-count bit",
  "Requesting data sends a request and, while the reply announces more records and the frame limit is not reached (zero meaning no limit), asks for the next telegram with the frame-count bit toggled; a repeated attempt after a timeout or invalid reply repeats the same request, at most the configured number of times. The result holds the received frames in order, success is reported only if the last exchange succeeded, and every intermediate block is released.",
  ["histories", "fault_sequences", "configurations"], "every sequence of up to the stated number of reception outcomes, frame limit 0..3, retry limit 0..2",
  "No test performs an exchange.",
  [AX], [("mbus_sendrecv_request", AX), ("mbus_context_set_option", AX)], ["send/recv callbacks of the handle", "the reply frame chain"])
p("C24", "Secondary selection and probing classify bus reactions correctly",
  "Selecting a slave by mask reports a single slave when exactly one acknowledge is received, a collision when the reply is garbled or more traffic follows, nothing on silence and an error when the mask is invalid or sending or receiving fails. Probing repeats a silent attempt at most the configured number of times and, on a single hit, reads the slave and reports its full address.",
  ["histories", "fault_sequences"], "every sequence of up to the stated number of bus reactions, retry limit 0..2",
  "No test has a bus.",
  [AX], [("mbus_select_secondary_address", AX), ("mbus_probe_secondary_address", AX)], ["return value", "frames sent", "found event", "matching address"])
p("C25", "A secondary scan finds every device the mask matches",
  "Scanning a mask with wildcards in its identification digits reports every device on the bus whose address matches it exactly once, provided decimal identification digits tell the devices apart, probes no position left of the first wildcard differently from the mask, and terminates; an error on the line ends the scan with an error. The mask given by the caller is not modified and temporary memory is released.",
  ["inputs", "schedules", "fault_sequences"], "every population of up to two devices in a mask with up to the stated number of wildcard digits; a probe error at any step",
  "No test scans.",
  [AX], [("mbus_scan_2nd_address_range", AX)], ["found event of the handle"])
p("C26", "Hex text converts to the bytes it spells, within the buffer",
  "Converting hexadecimal text yields exactly one byte per two-digit group, in order, with blanks between groups allowed, stops at the first character that is not part of such a group, and never stores more bytes than the buffer holds. The returned count equals the bytes stored.",
  ["inputs"], "every text up to the stated length and every buffer size up to the bound",
  "Test files hold well-formed hex only.",
  [AX], [("mbus_hex2bin", AX)], ["mbus_hex2bin"])
p("C27", "VIF normalisation applies the unit and factor of the protocol's VIF tables",
  "For every value-information code of the primary and the two extension tables, normalising yields the SI unit, quantity and factor that the protocol assigns to it (value times ten to the announced exponent, times converted to seconds), ignoring the extension bit; multiplicative and additive correction VIFEs are applied on top. Codes outside the tables are reported as an error.",
  ["inputs"], "all VIF codes, all VIFEs; values small integers",
  T110 + "which use a few dozen of the several hundred codes.",
  [AX], [("mbus_vif_unit_normalize", AX), ("mbus_vib_unit_normalize", AX)], ["mbus_vif_unit_normalize", "mbus_vib_unit_normalize"])
p("C28", "Fixed-data units normalise to the protocol's table",
  "For every one of the 64 unit codes of fixed-length data, normalising a counter yields the unit, quantity and factor of the protocol's table (energy, power, volume, flow, temperature), and the printed unit of a code names the same unit and scale. Reserved codes are reported as such.",
  ["inputs"], "all 64 unit codes; small integer counters",
  "Two recorded frames carry fixed data.",
  [AX, PR], [("mbus_fixed_normalize", AX), ("mbus_data_fixed_unit", PR)], ["mbus_fixed_normalize", "mbus_data_fixed_unit"])
p("C29", "Unit and medium texts exist for every code and name the right scale",
  "Every lookup of a unit, medium, function, error or product text returns a terminated text within its buffer for every possible code, including reserved and malformed ones. The unit text of a VIF or extension VIF names the same power of ten and unit as the normalised value of the same code.",
  ["inputs"], "every VIF, every first VIFE of the extension tables, every medium, error and unit byte, every header",
  T110 + "each naming a few of the units.",
  [PR], [("mbus_vif_unit_lookup", PR), ("mbus_vib_unit_lookup", PR), ("mbus_data_variable_medium_lookup", PR), ("mbus_data_fixed_medium", PR), ("mbus_data_error_lookup", PR), ("mbus_data_product_name", PR)], ["mbus_vib_unit_lookup", "mbus_data_record_unit", "mbus_data_variable_medium_lookup", "mbus_data_product_name"])
p("C30", "Manufacturer codes and letters convert back and forth",
  "Every three-letter manufacturer code of letters, in either case, encodes to the two header bytes of the FLAG formula and decodes back to those letters in upper case; the numeric id is accepted exactly for three letters and equals the decoded header's. Decoding any two header bytes yields three characters and a terminator.",
  ["inputs"], "all 16-bit header values and all three-letter codes",
  T110 + "a few dozen manufacturers.",
  [PR], [("mbus_manufacturer_id", PR), ("mbus_data_manufacturer_encode", PR), ("mbus_decode_manufacturer", PR)], ["mbus_manufacturer_id", "mbus_data_manufacturer_encode", "mbus_decode_manufacturer"])
p("C31", "Packing decoded data back into a frame reproduces its payload",
  "Packing the data obtained by parsing a payload writes that payload back (idle fillers aside): header, every record's DIF, DIFEs, VIF, plain-text VIF (without NUL characters), VIFEs and data bytes, for fixed, variable and error data. It never writes beyond the frame's payload area, and an object that does not fit is refused.",
  ["inputs"], "every payload with up to the stated number of record bytes; record lists whose size exceeds a frame",
  "No test packs data.",
  [PR], [("mbus_frame_internal_pack", PR)], ["mbus_frame_internal_pack", "mbus_frame_data_parse"])
p("C32", "A handle's life cycle leaks nothing and touches only its own descriptor",
  "Creating, connecting, configuring, disconnecting and freeing serial and TCP handles, in any order an application may use and with any step failing, releases every block and descriptor exactly once and never closes or uses a descriptor the handle does not own. Options accept exactly their documented ranges and keep the previous value otherwise.",
  ["histories", "fault_sequences", "configurations"], "every call sequence up to the bound, each environment call failing or not, every option value",
  "No test creates a handle.",
  [AX, SE, TC], [("mbus_context_serial", AX), ("mbus_context_tcp", AX), ("mbus_serial_connect", SE), ("mbus_tcp_connect", TC), ("mbus_serial_disconnect", SE), ("mbus_tcp_disconnect", TC), ("mbus_context_set_option", AX)], ["open/close/socket calls", "allocator"])
p("C33", "Normalised records carry the scaled value and own their memory",
  "Normalising a variable record yields its decoded number times the factor of its unit, or its text, together with function, storage number, tariff and device, with the numeric flag telling which. Releasing the result returns every block, and when normalisation fails nothing is left behind.",
  ["inputs", "fault_sequences"], "every DIF/VIF/VIFE and data content (data length up to the bound), every single allocation failure",
  T110 + "in which no normalisation fails.",
  [AX], [("mbus_parse_variable_record", AX), ("mbus_variable_value_decode", AX), ("mbus_parse_fixed_record", AX), ("mbus_record_free", AX)], ["mbus_parse_variable_record", "mbus_parse_fixed_record", "mbus_record_free"])
p("C34", "The serial line is configured as the protocol requires",
  "Connecting sets the line to 8 data bits, even parity, one stop bit, raw mode at 2400 baud, and setting a baud rate programs that very rate with an inter-byte timeout that covers the protocol's reply time (330 bit times and 50 ms, plus 11 bit times for the first byte and 100 ms for adapters); an unsupported rate is refused and leaves the line as it was. A failing terminal call is reported.",
  ["inputs", "fault_sequences", "configurations"], "every long value as a rate, each terminal call failing or not",
  "No test has a serial line.",
  [SE], [("mbus_serial_connect", SE), ("mbus_serial_set_baudrate", SE)], ["tcsetattr arguments"])
p("C35", "Printing and dumping never leave the data they are given",
  "Printing a frame (or a chain of them) shows exactly its packed bytes in hexadecimal and is an error when the frame cannot be packed; a hex dump shows exactly the bytes of its buffer; printing data shows each record's DIF, DIFEs, VIF, VIFEs and manufacturer data. All of it reads only the data it is given, for any content and size, and debug output does not change what is parsed.",
  ["inputs"], "every frame and short record list; dumps up to the stated size",
  "Tests print XML only.",
  [PR], [("mbus_frame_print", PR), ("mbus_frame_data_print", PR), ("mbus_hex_dump", PR)], ["mbus_frame_print", "mbus_frame_data_print", "mbus_dump_recv_event"])
p("C36", "Sending writes the whole packed frame once, or reports an error",
  "Sending a frame over a serial line or a TCP connection writes exactly the packed bytes in one piece and reports success only if all of them were written; a frame that cannot be packed writes nothing. The send event sees the same bytes, and a missing handle or frame is an error.",
  ["inputs", "fault_sequences"], "every frame type and content, every result of the write call",
  "No test sends.",
  [SE, TC, AX], [("mbus_serial_send_frame", SE), ("mbus_tcp_send_frame", TC), ("mbus_send_frame", AX)], ["write calls", "send event"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
