"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note='', na=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]['_note'] = note


MB = 'src/modbus_base.cpp'
prop('C01', 'The Modbus CRC is the standard CRC-16 for frames of every length',
     'The checksum computed for any byte sequence is the CRC-16/Modbus of exactly these bytes (reflected polynomial 0xA001, initial value 0xFFFF), transmitted high byte of the returned value first. It depends on nothing else, and no byte outside the given sequence is read.',
     ['inputs'], 'all byte sequences of every length up to 65535',
     'No existing test calls the checksum; a table entry or a length corner case can be wrong and every test still passes.',
     ['src/crc16.cpp', 'src/crc16.h'], [('CRC16::CalculateCRC16, table driven', 'src/crc16.cpp')],
     'unbounded: the table-driven loop is proved equal to the bitwise definition by a loop invariant for all lengths')
prop('C02', 'Byte sequences and integers convert into each other without loss in both orders',
     'Reading an integer from bytes and appending an integer as bytes follow the stated byte order exactly for every integer width and every value, and appending emits exactly the requested number of bytes. The mask of the N lowest bits has exactly these N bits set (all 64 for N of 64 and more), and a 16-bit value is split into its high byte followed by its low byte.',
     ['inputs'], 'all values of all integer widths used, all byte counts, all bit counts',
     'Each unit test has one value of one width; sign extension, shift width and byte-count boundaries are not reached.',
     ['src/bin_utils.h', 'src/bin_utils.cpp'], [('BinUtils::Get, GetBigEndian, Append, AppendBigEndian, GetLSBMask, WriteAs2Bytes', 'src/bin_utils.h, src/bin_utils.cpp')],
     'complete: loops are bounded by the operand width and fully unrolled over symbolic operands')
prop('C03', 'Packed BCD and integers convert into each other exactly',
     'For every integer whose decimal digits fit the given BCD width, packing gives one decimal digit per nibble, most significant first, and unpacking the packed value gives the integer back; for wider integers the lowest digits are packed. Bits above the given width never influence the unpacked value.',
     ['inputs'], 'all 32-bit values, all supported BCD widths',
     'The conversions have no unit test of their own; device tests use a handful of meter readings.',
     ['src/bcd_utils.cpp', 'src/bcd_utils.h'], [('PackBytes, PackedBCD2Int, IntToBCDArray, IntToPackedBCD', 'src/bcd_utils.cpp')],
     'complete: loops are bounded by the operand width')
prop('C04', 'Byte stuffing replaces exactly the reserved bytes and decoding undoes it',
     'Encoding emits, for every input byte in order, its escape sequence if the byte is reserved and the byte itself otherwise, and nothing else. Decoding an encoded stream gives the original data back, also when an escape sequence is at the very end, and leaves data without escape sequences unchanged; a rule with an empty escape sequence is refused.',
     ['inputs'], 'all data (encoding and decoding of plain data: every length; round trip: bounded length), all rule sets with two reserved bytes',
     'The two unit tests use one message each, none of which ends in an escape sequence.',
     ['src/bin_utils.h', 'src/bin_utils.cpp'], [('BinUtils::ApplyByteStuffing, BinUtils::DecodeByteStuffing', 'src/bin_utils.h, src/bin_utils.cpp')],
     'encoding and decoding of plain data unbounded; the round trip is a bounded stand-in (data of at most 5 bytes)')
prop('C05', 'Every Modbus request is well formed, and unencodable requests are refused',
     'A built request carries the function code, address, quantity and data exactly as asked, big-endian, with a byte count field that equals the number of data bytes that follow. A request whose data does not match its quantity, or does not fit the byte count field, is refused with an error and never built; every encodable request is built.',
     ['inputs'], 'all function codes, addresses, quantities and data of every length',
     'The request builder has no stable unit test; the integration tests use a few fixed registers.',
     [MB, 'src/modbus_base.h'], [('Modbus::MakePDU (both overloads) and its helpers', MB), ('Modbus::IsSupportedFunction', MB)],
     'unbounded in the data length')
prop('C06', 'Response data is taken only from a valid answer to the request',
     'Data is returned only from a response that answers the requested function and whose length is consistent with its own byte count (reads) or fixed size (writes), and then it is exactly the bytes after the header. A device exception answer to the request always surfaces as an error with the code the device sent; every other response is refused as an error.',
     ['inputs'], 'all response byte sequences of every length, all requested functions',
     'Stable tests never parse a response; malformed frames are unbounded in number.',
     [MB], [('Modbus::ExtractResponseData', MB), ('Modbus::TModbusExceptionError', MB)],
     'unbounded in the response length')
prop('C07', 'The expected response length is the length of a conforming answer',
     'For every supported function and every quantity, the computed response length equals the length of the answer a conforming device sends. An answer of this length with a matching byte count is accepted, and one of another length is refused.',
     ['inputs'], 'all supported functions and quantities',
     'No stable test computes a length; off-by-one errors for quantities that are not a multiple of 8 need particular values.',
     [MB], [('Modbus::CalcResponsePDUSize', MB), ('GetCoilsByteSize', MB)],
     'complete over all quantities')
prop('C08', 'A Modbus RTU exchange sends one framed request and accepts only a valid answer',
     'Exactly one frame is written: slave id, request PDU, and the CRC of all of it; then one answer is read with the caller\'s timeouts, complete at the expected length or at 5 bytes for an exception. An answer is accepted only if its CRC is valid and (unless matching is disabled) it comes from the addressed slave; then the result is exactly its PDU, its slave id and its response time. A timeout, a malformed answer and an answer of another slave surface as distinct errors.',
     ['inputs', 'fault_sequences'], 'all requests of every length, all received byte sequences, all timeouts, both matching modes, with and without draining the line',
     'The tests that drive an exchange need a serial port stand-in that is not part of the stable tests, and replay fixed dialogs.',
     [MB, 'src/modbus_base.h'], [('Modbus::TModbusRTUTraits::Transaction and ReadFrame', MB)],
     'unbounded in request and answer length; the port and the CRC function are used through their contracts')
prop('C09', 'A Modbus TCP exchange sends one framed request and accepts only its own answer',
     'Exactly one frame is written: transaction id, protocol id 0, length of unit id and PDU, unit id, PDU. Transaction ids count the requests of each port separately, starting with 1 after a reset. Answers with another transaction id are skipped until both timeouts are over, each by its announced length; an answer with this id is never skipped, and is accepted only if (unless matching is disabled) it comes from the addressed unit; then the result is exactly its PDU, of the announced length, and its unit id. A short header, a zero length and a short body are malformed answers; a timeout is reported as such and only if nothing was received or both timeouts are over.',
     ['inputs', 'fault_sequences', 'histories'], 'all requests of every length, any number of stray answers of every length before the answer, all timeouts, both matching modes, all histories of transaction ids',
     'No test of the stable set drives a Modbus TCP exchange; stray answers and id wrap-around need a scripted port.',
     [MB, 'src/modbus_base.h', 'src/port/port.cpp'], [('Modbus::TModbusTCPTraits::Transaction, ReadFrame, GetTransactionId, ResetTransactionId, SetMBAP', MB)],
     'unbounded in the number and lengths of skipped answers (loop invariant found and proved); port and clock are used through their contracts')

prop('C10', 'Any text becomes usable in MQTT topics, losing nothing else',
     'A text is usable in an MQTT topic exactly if it contains none of the characters apostrophe, double quote, slash, plus, dollar and hash. Conversion keeps every other character, in order, and puts "|" for quotes and slashes, "_plus_" for a plus, "_" for dollar and hash, and nothing else; its result is always usable, and a usable text is not changed by it.',
     ['inputs'], 'all texts of every length, all characters',
     'The tests convert and check single sample strings.',
     ['src/common_utils.cpp', 'src/common_utils.h'], [('util::ConvertToValidMqttTopicString, util::IsValidMqttTopicString', 'src/common_utils.cpp')],
     'unbounded in the text length')

EE = 'src/expression_evaluator.cpp'
prop('C11', 'A condition is true exactly as its operators say for the parameters\' values',
     'The value of a condition follows from its tree: numbers are their decimal values (for all values of 32 bits), parameters have the value the caller provides, isDefined is true exactly for parameters that have one, comparisons compare the full 32-bit signed values, && and || combine values other than zero. An operation with an undefined operand is false, except != which is true. The whole is true exactly if it has a value other than zero. A missing expression or operand is an error; evaluation asks only for parameters the expression names and changes nothing.',
     ['inputs'], 'all expression trees (induction over the tree: each node is proved from the values of its operands), all parameter values, defined or not',
     'The evaluator is not part of the stable tests; its tests use two parameters with values 1 and 2.',
     [EE, 'src/expression_evaluator.h'], [('Expressions::Eval, EvalImpl, EvalFunction', EE)],
     'unbounded: every node type is proved with the operands replaced by the contract of the recursion; number texts of at most 12 digits')
prop('C12', 'Conditions parse as grammar and precedence say; nothing else is accepted',
     'A text is split into the longest operators, brackets, integer numbers (with optional minus) and identifiers (a letter followed by letters, digits, underscores); any other character is refused with an error. Operands are numbers, identifiers, isDefined(identifier) and bracketed expressions; comparison binds tighter than equality, equality tighter than &&, && tighter than ||, and equal operators group from left to right. Every text of the grammar is accepted and gives the tree with exactly its operands and operators, in order; a text that is not an expression as a whole is refused with an error.',
     ['inputs'], 'token recognition: all texts of every length, at every position; splitting and parsing: bounded numbers of tokens and operators',
     'The parser is not part of the stable tests; its tests compare a few dozen fixed texts.',
     [EE, 'src/expression_evaluator.h'], [('TLexer::GetOpOrBracket, GetNumber, GetIdent, GetTokens', EE), ('TParser::ParseOperand, ParseFunction, ParseConditionWithBrackets, ParseCondition, ParseExpression, Parse', EE), ('TreeByPriority', EE)],
     'token recognition unbounded; token sequences, operands and precedence are bounded stand-ins (4 to 5 tokens or operators), each function against the contracts of those it calls; random texts cross-check all parts together')
prop('C13', 'A condition depends on exactly the parameters it names',
     'The dependencies of a condition are exactly the parameters it refers to, on either side of an operator, in brackets and inside isDefined, each once and in ascending order.',
     ['inputs'], 'all expression trees (induction over the tree), operands with at most two parameters each',
     'No test of the stable set covers dependencies.',
     [EE, 'src/expression_evaluator.h'], [('Expressions::GetDependencies', EE)],
     'induction over the tree with the recursion replaced by its contract; bounded stand-in: at most two parameters per operand, names of at most one character')

PP = 'src/poll_plan.h'
prop('C14', 'The schedule serves entries by deadline and never loses or repeats one',
     'Of two scheduled entries the one with the earlier deadline is served first; between equal deadlines the compare predicate decides (the entry it calls smaller goes later). The entry on top is always the first of those added and not yet taken or removed; every entry is served exactly once; Contains and Remove concern exactly the named entry, and the order of the others survives a removal. Entries are due from their deadline on; an empty schedule has nothing due and the latest possible deadline.',
     ['inputs', 'histories'], 'ordering: all pairs and triples of entries; queue: all deadlines and entries, histories of adding, taking and removing with at most 3 entries at a time',
     'The test adds three entries in one order, with no equal deadlines and no removal.',
     [PP], [('TPriorityQueueSchedule, TPriorityQueue', PP)],
     'the order is proved for all entries; queue histories with 3 entries at a time are a bounded stand-in over the real std::priority_queue (random histories of 9 entries cross-check)')
prop('C15', 'A scheduling step offers due entries of one priority, in order, within limits',
     'A step serves the due high priority entries, or else the due low priority ones. Low priority takes precedence only if all priorities are selected, low priority entries are due, and high priority has used up its time balance (or has no entries). Only due entries are offered, by deadline; an accepted entry leaves the queue before the next is offered; the step ends at the first refusal, which leaves the entry in the queue, or when no entry is due. The first high priority entry is forced, and so is the first low priority one when it is low priority\'s turn; all others are not. High priority entries have no time limit; low priority ones have none without high priority entries, else the time to the next high priority deadline (rounded up to milliseconds), or, if that has passed, the time owed to low priority. The time balance is not changed.',
     ['inputs', 'schedules'], 'all deadlines, times, balances and lags, queues of any number of entries, all behaviours of the accumulator',
     'The tests step through a few fixed scenarios with always accepting accumulators.',
     [PP], [('TScheduler::AccumulateNext, GetLowPriorityPollLimit, ShouldSelectLowPriority', PP)],
     'unbounded in the number of entries (loop invariants); std::priority_queue is used through its contract')
prop('C16', 'Low priority polling is limited by the time balance and the rate limit',
     'Time spent on high priority entries is added to the balance, time spent on low priority ones subtracted, always within twice the allowed lag either way; it is low priority\'s turn from the lag on, and it is owed what exceeds the lag; a reset clears the balance. Entries go to the queue of their priority; deadlines, membership and removal concern both queues, and removal takes exactly the named entry. With a rate limit, polling is over the limit exactly while more items than the limit were counted in the window of one second that began within the second of its first item; the first item after a window begins the next; no limit means never over it.',
     ['inputs', 'histories'], 'all time values of 32 bits, all states of the balance; all states of the rate limiter (any number of items), one step from each; two entries in the queues',
     'The tests use fixed millisecond values; the rate limiter is tested with three items within one moment.',
     [PP], [('TTotalTimeBalancer', PP), ('TRateLimiter', PP), ('TScheduler', PP)],
     'balance and rate limit: induction over the history (every reachable state, one step); membership and removal: bounded stand-in with two entries')

ME = 'src/modbus_ext_common.cpp'
MEF = [ME, 'src/modbus_ext_common.h']
prop('C17', 'Fast Modbus events are read, reported and confirmed once each, in order',
     'An event request goes to all devices, names the device to start from and confirms exactly the last accepted answer with events; its answer may come from any device. Every event of the answer is reported once, in order, as an event of the device that answered, with its type, id and data; nothing outside the answer is read or reported. Only an answer with events changes what is confirmed next and says that there may be more; an answer of wrong length, an event that does not fit and an unknown answer are malformed. The line is left free before and after the exchange. The limit of the answer has room for one event, fits in a packet and otherwise is what can be sent in the given time.',
     ['inputs', 'fault_sequences'], 'all answers of every length and content, all confirmation states, all times; byte send times of four port speeds',
     'Fast Modbus is not part of the stable tests; its tests use single well-formed answers and one byte time.',
     MEF, [('ModbusExt::ReadEvents, IterateOverEvents, MakeReadEventsRequest, GetMaxReadEventsResponseDataSize', ME)],
     'unbounded in the number and sizes of events (loop invariants); transport and port are used through their contracts; the byte send time of a port is one of four values')
prop('C18', 'Fast Modbus answers come from valid packets; serial numbers address devices',
     'An answer with leading arbitration bytes is accepted exactly if it ends with a whole packet: a slave id other than 0xFF, a Fast Modbus command, an answer code with the length it has or announces, and a matching CRC; the first such packet counts. The result is the id and PDU of this packet. Requests by serial number carry command, serial number and PDU to all devices, and only the answer with this command and serial number is accepted. A scan sends one start request and continuation requests until the answer that there are no more devices, reporting every found device with its serial number and address once; no answer to the start request means no devices.',
     ['inputs', 'fault_sequences'], 'all received bytes up to 65000, all requests, all serial numbers, all answers',
     'Fast Modbus is not part of the stable tests; its tests feed well-formed packets.',
     MEF, [('GetRTUPacketStart, IsModbusExtRTUPacket, CheckCRC16, TModbusRTUWithArbitrationTraits', ME), ('TModbusTraits', ME), ('Scan, ScanStart, ScanNext, SendScanRequest', ME)],
     'the search of the packet is proved by a loop invariant for arbitrary bytes, the exchange from its contract, a scan step for all answers; whole scans: bounded stand-in (3 devices)')
prop('C19', 'Event set-up addresses every register once and reports what the device enabled',
     'Setting up events sends requests to the device in which every registered register is addressed exactly once with its type and priority; each request carries at least one setting and fits in a packet. Registers in between are addressed only if holes are to be disabled, and then with priority "disabled". For every addressed register, in the order of the request, it is reported if the device has enabled it: its bit of the answer. Without registers nothing is sent. An exception answer is reported with its code; an answer to another command, or one without the bytes it announces or needs, is malformed and not read beyond its end.',
     ['inputs', 'fault_sequences'], 'answers: all of every length; requests: up to 3 registers of all addresses, types and priorities, both treatments of holes',
     'Fast Modbus is not part of the stable tests; its tests set up fixed registers and give complete answers.',
     MEF, [('TEventsEnabler::AddRegister, SendRequests, EnableEvents', ME), ('TBitIterator', ME)],
     'answers unbounded in length and content; sets of registers are a bounded stand-in (2 to 3 registers); random sets of up to 300 registers cross-check')

MC = 'src/modbus_common.cpp'
prop('C20', 'Writing and reading a Modbus register concerns exactly its bits',
     'After a value is written to a Modbus register that is known from reading, the bits of the register in the device have the value (its low bits), in the word and byte order of the register, and every other bit of the words it lies in is unchanged; what is known of the device afterwards agrees with it. Only words of the register are written, with the function for the register type, after the delay of the device. If the device refuses, the refusal is reported and what was known stays. A coil is switched on exactly by values other than zero. A text is written one or two characters to a word, as the bytes it consists of; an empty text is a terminator. Reading asks for exactly the words of the register and yields the bits in these orders, a text up to the first 0 or 0xFF; an answer without all requested words is refused and not read beyond its end.',
     ['inputs', 'fault_sequences'], 'all values, previous contents, addresses, orders, bit offsets and widths, answers',
     'The code is not part of the stable tests; its tests write a few values to fixed registers of a fake device.',
     [MC, 'src/modbus_common.h', 'src/register.cpp'], [('WriteRegister, ComposeNumberWriteRequestWords, ComposeStringWriteRequestWords, ComposeRawSingleWriteRequestData', MC), ('ReadRegister, GetNumberRegisterValue, GetStringRegisterValue', MC)],
     'numbers: complete for all values and contents (at most 4 words, unrolled); answers unbounded; texts up to 4 words are a bounded stand-in')

prop('C21', 'Modbus registers are read together within limits; each gets its value or error',
     'A register joins a read request exactly if that is possible: same device and type, not before its start, no further behind its end than the allowed hole, within the limit of registers of the protocol and of the device, within the time limit if the request gets longer, and never an untested register together with a tested one (untested ones of 16 bits are read alone). It then lies within the request; a refused or unavailable register changes nothing. Reading sends one request for exactly this range after the delay of the device. A valid answer gives every register the value at its place, clears its read error, marks it available and remembers the words of holding registers. Otherwise no value changes and every register gets a read error; if the device calls the request illegal, holes are given up if it had any, else its registers become unavailable and are excluded from polling, unless configured otherwise. The device learns whether the transfer succeeded.',
     ['inputs', 'fault_sequences'], 'all addresses, limits, availabilities, times and requests built so far; all answers and faults',
     'The code is not part of the stable tests; its tests build a few fixed ranges and answer them as expected.',
     [MC, 'src/modbus_common.h', 'src/register.cpp'], [('TModbusRegisterRange::Add, ReadRange, AddingRegisterIncreasesSize', MC), ('ReadRegisterRange, ProcessRangeException, ParseReadResponse, ParseSingleBitReadResponse', MC), ('TRegister::SetValue, SetAvailable, SetError', 'src/register.cpp')],
     'joining: one step from any request, hence requests of any size; reading of words: all answers, 2 registers as bounded stand-in; of bits: bounded stand-in (17 bits, 5 bytes)')

OUTSIDE = '''
Not stated as properties, because no contract over one call or one data structure expresses them within the verifier's reach:
merging of JSON configurations and templates (jsoncpp/libwbmqtt are not installed; the code does not build here), interleaving of
RPC requests with polling (threads), MQTT publication order (libwbmqtt), DLMS (gurux is not installed), liveness ("every channel
is eventually polled").
'''
