"""Which harnesses decide which property."""


def H(name, **k):
    return dict(name=name, **k)


T = ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t']
PROPS = {
    'C01': dict(src='C01.cpp', harnesses=[H('crc_all', cost=9), H('crc_frame'), H('crc_short')], functions=['CRC16::CalculateCRC16']),
    'C02': dict(src='C02.cpp', harnesses=[H('%s_%s_%s' % (e, o, t)) for e in ('le', 'be') for o in ('get', 'app') for t in T]
                + [H('le_app_int32'), H('be_app_int32'), H('append_list'), H('lsb_mask'), H('write_2_bytes')],
                functions=['BinUtils::Get', 'BinUtils::GetFrom', 'BinUtils::GetBigEndian', 'BinUtils::GetFromBigEndian', 'BinUtils::Append (value, list)',
                           'BinUtils::AppendBigEndian', 'BinUtils::GetLSBMask', 'BinUtils::WriteAs2Bytes']),
    'C03': dict(src='C03.cpp', harnesses=[H(x) for x in ('bcd8', 'bcd16', 'bcd24', 'bcd32', 'bcd_high_bits', 'pack_bytes_all')],
                functions=['PackBytes', 'PackedBCD2Int', 'IntToBCDArray', 'IntToPackedBCD']),
    'C04': dict(src='C04.cpp', harnesses=[H('encode_2_2', cost=8), H('encode_1_3', cost=8), H('round_trip', bound='data of at most 5 bytes'), H('decode_plain', cost=9), H('bad_rule')],
                functions=['BinUtils::ApplyByteStuffing', 'BinUtils::DecodeByteStuffing']),
    'C05': dict(src='C05.cpp', harnesses=[H('make_pdu'), H('make_pdu_rw'), H('supported')],
                functions=['Modbus::MakePDU (both overloads)', 'MakeReadRequestPDU', 'MakeWriteSingleRequestPDU', 'MakeWriteMultipleRequestPDU', 'GetCoilsByteSize', 'Modbus::IsSupportedFunction', 'Modbus::IsException', 'BinUtils::WriteAs2Bytes']),
    'C06': dict(src='C06.cpp', harnesses=[H('extract'), H('exception_code')],
                functions=['Modbus::ExtractResponseData', 'GetFunctionCode', 'GetFunction', 'ThrowIfModbusException', 'Modbus::IsException', 'Modbus::TModbusExceptionError', 'GetModbusExceptionMessage']),
    'C07': dict(src='C07.cpp', harnesses=[H('size_formula'), H('conforming_answer'), H('other_size')],
                functions=['Modbus::CalcResponsePDUSize', 'Modbus::ExtractResponseData', 'GetCoilsByteSize']),
    'C08': dict(src='C08.cpp', stubs=['wb'], harnesses=[H('rtu_any_answer'), H('rtu_any_answer_drain'), H('rtu_valid_crc'), H('rtu_valid_crc_drain'), H('rtu_timeout'), H('rtu_complete')],
                functions=['Modbus::TModbusRTUTraits::Transaction', 'TModbusRTUTraits::ReadFrame', 'TModbusRTUTraits::FinalizeRequest', 'TModbusRTUTraits::ExpectNBytes', 'TModbusRTUTraits::GetPacketSize', 'BinUtils::WriteAs2Bytes'],
                assumptions=['TPort::WriteBytes / ReadFrame: contract of the port interface (records the frame; delivers at most the requested number of arbitrary bytes or times out)',
                             'CRC16::CalculateCRC16 is an arbitrary function of the bytes here; C01 proves which one']),
    'C09': dict(src='C09.cpp', stubs=['wb'], cflags=['-fno-access-control'], harnesses=[H('tcp_exchange', cost=9), H('tcp_time'), H('tcp_ids')],
                functions=['Modbus::TModbusTCPTraits::Transaction', 'TModbusTCPTraits::ReadFrame', 'SetMBAP', 'GetLengthFromMBAP', 'GetPacketSize', 'FinalizeRequest', 'GetTransactionId', 'ResetTransactionId', 'TPort::CalcResponseTimeout'],
                assumptions=['TPort::WriteBytes / ReadFrame / GetDescription: contract of the port interface', 'std::chrono::steady_clock::now: an arbitrary clock that never goes back']),
    'C10': dict(src='C10.cpp', harnesses=[H('convert'), H('valid'), H('replacements')],
                functions=['util::ConvertToValidMqttTopicString', 'util::IsValidMqttTopicString']),
    'C11': dict(src='C11.cpp', cflags=['-fno-access-control'], harnesses=[H('node', cost=2), H('number', cost=2), H('nothing')],
                functions=['Expressions::Eval', 'EvalImpl', 'EvalFunction', 'TAstNode accessors']),
    'C12': dict(src='C12.cpp', cflags=['-fno-access-control'], harnesses=[H('operators', cost=2), H('number', cost=2), H('identifier', cost=2), H('tokens', cost=2, proof_only=True, bound='texts of at most 4 tokens'), H('operand', cost=2),
                H('precedence', bound='at most 3 operators'), H('precedence_long', cost=2, bound='at most 5 operators, one of each priority'),
                H('condition', cost=2, bound='5 tokens'), H('whole', proof_only=True, bound='4 tokens'), H('text', native_only=True)],
                functions=['Expressions::TLexer', 'Expressions::TParser', 'TreeByPriority']),
    'C13': dict(src='C13.cpp', cflags=['-fno-access-control'], harnesses=[H('node', cost=2, bound='operands with at most 2 parameters each, names of at most 1 character'), H('nothing')],
                functions=['Expressions::GetDependencies']),
    'C14': dict(src='C14.cpp', harnesses=[H('order'), H('empty'), H('pops_3', bound='3 entries'), H('mixed', bound='4 entries, at most 3 at a time'),
                H('removes_3', bound='3 entries'), H('pops_many', native_only=True), H('removes_many', native_only=True)],
                functions=['TPriorityQueueSchedule (TItem::operator<, AddEntry, GetTop, Pop, GetDeadline, HasReadyItems, IsEmpty, Contains, Remove)', 'TPriorityQueue::Contains', 'TPriorityQueue::Remove']),
    'C15': dict(src='C15.cpp', harnesses=[H('high', cost=2), H('low', cost=4), H('none')], functions=['TScheduler::AccumulateNext', 'TScheduler::GetLowPriorityPollLimit', 'ShouldSelectLowPriority', 'GetLowPriorityLag', 'TPriorityQueueSchedule::HasReadyItems / GetTop / Pop / GetDeadline / IsEmpty'],
                assumptions=['std::priority_queue: contract (an arbitrary number of entries, popped by deadline); C14 checks the real queue with the ordering of the code']),
    'C16': dict(src='C16.cpp', harnesses=[H('balance'), H('scheduler'), H('two_queues', bound='at most 2 entries'), H('rate', cost=2)],
                functions=['TTotalTimeBalancer', 'TScheduler::UpdateSelectionTime', 'ResetLoadBalancing', 'GetDeadline', 'GetHighPriorityDeadline', 'GetLowPriorityDeadline', 'Contains', 'Remove', 'IsEmpty', 'AddEntry', 'TRateLimiter']),
    'C17': dict(src='C17.cpp', stubs=['wb'], harnesses=[H('events', cost=2), H('limit_115200', bound='send time of a byte: 96 us'), H('limit_9600', bound='send time of a byte: 1146 us'), H('limit_1200', bound='send time of a byte: 9167 us'), H('limit_0', bound='send time of a byte: 0 us')],
                assumptions=['ports, transports and event visitors obey their interface contracts', 'wblib/log.h is a stand-in that logs nothing (libwbmqtt is not installed)'],
                functions=['ModbusExt::ReadEvents', 'MakeReadEventsRequest', 'IterateOverEvents', 'GetMaxReadEventsResponseDataSize', 'GetTimeoutForEvents']),
    'C18': dict(src='C18.cpp', stubs=['wb'], harnesses=[H('packet_start', cost=5), H('exchange', proof_only=True), H('arbitration', native_only=True), H('by_serial_number'), H('scan_start'), H('scan_next'), H('scan', bound='at most 3 devices')],
                assumptions=['ports, transports and event visitors obey their interface contracts', 'wblib/log.h is a stand-in that logs nothing (libwbmqtt is not installed)', 'packets have at most 65000 bytes; the CRC is an arbitrary function of them (C01 proves which one)'],
                functions=['ModbusExt::GetRTUPacketStart', 'IsModbusExtRTUPacket', 'CheckCRC16', 'TModbusRTUWithArbitrationTraits::Transaction', 'FinalizeRequest', 'TModbusTraits::Transaction', 'FinalizeIntermediatePdu', 'ValidateIntermediateResponsePdu', 'SendScanRequest', 'ScanStart', 'ScanNext', 'Scan']),
    'C19': dict(src='C19.cpp', stubs=['wb'], harnesses=[H('apart', bound='3 registers'), H('with_holes', cost=3, bound='3 registers in order'), H('cut_short', bound='2 registers'), H('row', bound='10 registers'), H('any_answer'), H('many', native_only=True)],
                assumptions=['ports, transports and event visitors obey their interface contracts', 'wblib/log.h is a stand-in that logs nothing (libwbmqtt is not installed)'],
                functions=['ModbusExt::TEventsEnabler']),
    'C20': dict(src='C20.cpp', stubs=['mb', 'wb'], cflags=['-fno-access-control'], harnesses=[H('write_holding'), H('write_multi'), H('write_single'), H('write_holding_bits2', cost=8), H('write_holding_bits8', cost=8), H('write_multi_bits2', cost=8), H('write_multi_bits8', cost=8), H('write_single_bits2'), H('write_single_bits8'), H('write_only'), H('write_coil'), H('text', bound='4 words'), H('text8', bound='4 words'), H('read_whole'), H('read_bits'), H('read_coil'), H('read_text', bound='3 words')],
                assumptions=['transports and ports obey their interface contracts; the device is modelled as memory', 'wblib headers and serial_config.h are stand-ins (libwbmqtt and jsoncpp are not installed)', 'bit fields: register widths of 2 and 8 bytes (1 to 4 words); word by word writes have big-endian word order'],
                functions=['Modbus::WriteRegister', 'ReadRegister', 'WriteTransaction', 'ComposeNumberWriteRequestWords', 'ComposeStringWriteRequestWords', 'ComposeRawMultipleWriteRequestData', 'ComposeRawSingleWriteRequestData', 'GetRegisterValue', 'GetNumberRegisterValue', 'GetStringRegisterValue', 'GetFunctionImpl', 'TRegisterConfig', 'TRegisterValue']),
    'C21': dict(src='C21.cpp', stubs=['mb', 'wb'], cflags=['-fno-access-control'], harnesses=[H('pdu_size'), H('add_first'), H('add_first_bit'), H('add', cost=5), H('add_bit', cost=8), H('read_words', cost=9, bound='2 registers'), H('read_coils', cost=7, bound='2 registers, 17 bits'), H('read_discrete', cost=7, bound='2 registers, 17 bits')],
                assumptions=['transports and ports obey their interface contracts', 'wblib headers and serial_config.h are stand-ins (libwbmqtt and jsoncpp are not installed)'],
                functions=['Modbus::TModbusRegisterRange', 'ReadRegisterRange', 'ProcessRangeException', 'RethrowSerialDeviceException', 'ParseReadResponse', 'ParseSingleBitReadResponse', 'TRegister']),
}
