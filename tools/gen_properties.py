#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call per property."""
import json, os
OUT = []
def P(id, title, stmt, over, q, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                          hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    OUT.append(d)
I, H, C, F, S = 'inputs', 'histories', 'configurations', 'fault_sequences', 'schedules'

# ---- checksums, byte packing, text utilities -------------------------------------------------
P('C01', 'Modbus CRC-16 is the standard CRC of exactly the bytes given',
  'For every byte sequence, the checksum the driver appends to and verifies on Modbus RTU frames is the standard CRC-16/MODBUS of exactly those bytes, high byte first as transmitted. A frame followed by its own checksum leaves no residue, and changing any bits within one 16-bit burst changes the checksum.',
  [I], 'every byte sequence up to the stated length', 'Tests compare a handful of fixed frames; a wrong table entry shows only for particular byte values.',
  ['src/crc16.cpp', 'src/crc16.h'], [('CalculateCRC16', 'src/crc16.cpp')], ['return value of CRC16::CalculateCRC16'])
P('C02', 'Integers are packed into and unpacked from byte streams without loss',
  'Packing any integer value of any supported width into a byte stream and unpacking it at the same offset, in the same byte order (big or little endian), gives the value back; the bytes are in the stated order, the stream grows by exactly the integer size, and nothing outside it is touched. Reading from a sequence shorter than the value uses exactly the bytes that are there and nothing beyond them. The mask of the n least significant bits has exactly those bits set for every n up to the type width.',
  [I], 'every value, every width 1..8 bytes, both byte orders, every offset and every stream length', 'Tests use a few constants; endianness slips, sign extension and boundary widths depend on the value.',
  ['src/bin_utils.h', 'src/bin_utils.cpp'], [('Get/GetFrom/Append families', 'src/bin_utils.h')], ['BinUtils functions'])
P('C03', 'Byte stuffing is reversible and leaves no reserved byte in the frame',
  'For every payload and every well-formed set of stuffing rules, the stuffed form contains no unescaped reserved byte and decoding it returns the original payload exactly, wherever the reserved bytes stand (first, last, adjacent). Bytes that no rule mentions pass through unchanged.',
  [I, C], 'every payload up to the stated length, the rule sets of the SLIP-like protocols', 'The tests use two fixed vectors; failures depend on where the escapes fall.',
  ['src/bin_utils.cpp', 'src/bin_utils.h'], [('ApplyByteStuffing/DecodeByteStuffing', 'src/bin_utils.cpp')], ['BinUtils::ApplyByteStuffing, BinUtils::DecodeByteStuffing'])
P('C04', 'BCD conversion is exact for every packed decimal value',
  'Converting packed BCD data of 1 to 4 bytes to an integer gives the decimal number spelled by its nibbles, for every digit combination, and bytes beyond the declared width do not matter. Packing bytes keeps the order in which they are read, and converting an integer that fits to BCD and back is the identity and produces decimal digits only.',
  [I], 'every byte combination of 1..4 bytes', 'Only sample values are tested; carry and shift slips show for particular digits only.',
  ['src/bcd_utils.cpp', 'src/bcd_utils.h'], [('PackBytes, PackedBCD2Int, IntToBCDArray, IntToPackedBCD', 'src/bcd_utils.cpp')], ['bcd_utils functions'])
P('C05', 'Names converted for MQTT topics are always valid and stable',
  'For every string, the converted name is accepted by the validity check and contains none of the characters that are not allowed in a topic; a string that is already valid is returned unchanged, converting twice equals converting once, and all other characters keep their value and order.',
  [I], 'every byte string up to the stated length', 'Tests try two strings; the property is about every character value in every position.',
  ['src/common_utils.cpp'], [('ConvertToValidMqttTopicString/IsValidMqttTopicString', 'src/common_utils.cpp')], ['util:: functions'])
P('C06', 'Firmware version comparison is a consistent ordering of version numbers',
  'Comparing two firmware versions is antisymmetric and transitive, and equals the component-wise numeric comparison with release candidates ordered before and +wb builds after the version they belong to (an absent component counts as zero, an empty string is older than anything). No version string of any content makes the comparison fail or crash.',
  [I], 'every pair and triple of version strings within the stated length and alphabet', 'Tests list a dozen pairs; ordering laws relate three arbitrary strings.',
  ['src/common_utils.cpp'], [('CompareVersionStrings', 'src/common_utils.cpp')], ['util::CompareVersionStrings'])
# ---- expressions -----------------------------------------------------------------------------
P('C07', 'Template conditions evaluate exactly as documented',
  'For every well-formed condition and every assignment of parameters (defined with any value, or undefined), evaluation gives the documented result: comparisons and arithmetic-free operands on 32-bit integers, && binds tighter than ||, parentheses override, isDefined tells whether a parameter is set. Ordering and equality comparisons with an undefined parameter are false, != with one is true.',
  [I, C], 'every operator combination up to the stated expression size, every parameter value and definedness', 'Tests evaluate a fixed list; precedence and undefined-operand rules interact for arbitrary nesting and values.',
  ['src/expression_evaluator.cpp', 'src/expression_evaluator.h'], [('TParser, Eval', 'src/expression_evaluator.cpp')], ['Expressions::TParser::Parse, Expressions::Eval'])
P('C08', 'Any condition text is either parsed as written or rejected with an error',
  'For every character string given as a condition, the parser terminates and either rejects it with an error or returns an expression that contains every token of the text in order; it never crashes, reads outside the text or silently drops trailing text. The reported dependencies of an accepted condition are exactly the parameter names that occur in it.',
  [I], 'every string up to the stated length over the full byte range', 'A dozen malformed strings are tested; parsers break on the strings nobody thought of.',
  ['src/expression_evaluator.cpp', 'src/expression_evaluator.h'], [('TLexer, TParser, GetDependencies', 'src/expression_evaluator.cpp')], ['Expressions::TLexer::GetTokens, Expressions::TParser::Parse, GetDependencies'])
# ---- values ----------------------------------------------------------------------------------
P('C09', 'Raw register values are published as the number they encode',
  'For every register format, every raw value is turned into the text of exactly the number it encodes in that format (two\'s complement width, BCD digits, IEEE float bits, characters), with scale, offset and rounding applied as configured; the word order setting only changes how words are assembled. No raw value crashes the conversion.',
  [I, C], 'every raw value for each format and the listed scale/offset/round_to settings', 'Tests sample a few values per format; sign and width boundaries are exactly what samples miss.',
  ['src/register.cpp', 'src/register_value.cpp', 'src/bcd_utils.cpp'], [('ConvertFromRawValue', 'src/register.cpp')], ['ConvertFromRawValue'])
P('C10', 'Values written over MQTT reach the register unchanged or are rejected',
  'For every payload text and register format, a decimal or 0x integer is written as that number in the width of the register (two\'s complement or BCD digits), a number for a scaled register as (number - offset) / scale rounded to the nearest integer, a decimal fraction rounded likewise, a number for a float register as its IEEE bits, and a string register gets the text itself; writing back the text published for a raw value gives that raw value. Text that is not a number (nan and inf included for integer registers), or is a number beyond 64 bits or negative for a scaled unsigned register, is rejected with an error and never turned into some other value.',
  [I, C], 'every payload text up to the stated length for each format', 'Tests write a few well-formed numbers; malformed and out-of-range payloads are an open-ended set.',
  ['src/register.cpp'], [('ConvertToRawValue', 'src/register.cpp')], ['ConvertToRawValue'])
# ---- Modbus transport ------------------------------------------------------------------------
P('C11', 'Every Modbus request PDU is well formed',
  'For every function, start address, count and payload, the request the driver builds carries exactly the function code, big-endian address and count (or value), byte count and data required by the Modbus specification, and the response size it expects is the specified one. Requests the protocol cannot express (data size not matching the count, data that does not fit the one-byte byte count field) are refused with an error instead of being sent.',
  [I], 'all supported functions, every address, every count and data up to the stated size', 'Tests see the requests of a few configurations only.',
  ['src/modbus_base.cpp'], [('MakePDU, CalcResponsePDUSize', 'src/modbus_base.cpp')], ['Modbus::MakePDU, Modbus::CalcResponsePDUSize'])
P('C12', 'A Modbus response is accepted only if it answers the request',
  'Whatever bytes a device returns, response data is handed on only if the function code equals the requested one and the byte count matches the data actually received; an exception response is always reported as that exception code, anything else as a malformed response. The data handed on is exactly the bytes received and nothing outside the response is read.',
  [I, F], 'every response of every length up to the stated bound, for each function', 'Tests replay correct responses and a few broken ones.',
  ['src/modbus_base.cpp'], [('ExtractResponseData', 'src/modbus_base.cpp')], ['Modbus::ExtractResponseData'])
P('C13', 'Modbus RTU never accepts a corrupted frame or another slave\'s reply',
  'For every byte sequence received, an RTU transaction returns a reply only if the frame is at least the minimal size, its checksum is valid and the slave address is the one addressed (unless address matching is disabled); the reply is the frame content without address and checksum, and the reply\'s slave address is reported truthfully. Otherwise the transaction fails with a transient error, and the request put on the wire is the address, the request PDU and its checksum.',
  [I, F], 'every received frame up to the stated length, every slave address and request', 'Noise is arbitrary; tests use a couple of hand-made corruptions.',
  ['src/modbus_base.cpp'], [('TModbusRTUTraits::Transaction, ReadFrame', 'src/modbus_base.cpp')], ['TModbusRTUTraits::Transaction through TPort'])
P('C14', 'Modbus TCP replies are matched to their requests',
  'For every sequence of received frames, a Modbus TCP transaction returns a reply only if its transaction id and unit id match the request just sent and its length field covers exactly the returned PDU; frames with another transaction id (late answers to earlier requests) are skipped, and every request uses a transaction id different from the previous one and a header with the right length.',
  [I, H, F], 'every received header and body up to the stated size, late replies before the right one, several consecutive requests on one and on different ports', 'Late replies after timeouts are timing dependent; tests contain one canned session.',
  ['src/modbus_base.cpp'], [('TModbusTCPTraits::Transaction', 'src/modbus_base.cpp')], ['TModbusTCPTraits::Transaction through TPort'])
# ---- Modbus registers ------------------------------------------------------------------------
P('C15', 'Modbus register values are decoded from exactly their words and bits',
  'For every response that answers a read request, each register in the request gets the value formed from its own words, in its configured word and byte order, and only its configured bits (offset and width); strings end at the first terminator or at their configured size. A response with too little data sets no register and raises an error; memory outside the response is never read.',
  [I, C], 'every response content and length, every register width, order, bit offset and width within the stated set', 'Tests use fixed register maps and well-formed answers.',
  ['src/modbus_common.cpp'], [('ReadRegisterRange, ParseReadResponse, GetRegisterValue', 'src/modbus_common.cpp')], ['Modbus::ReadRegisterRange, Modbus::ReadRegister'])
P('C16', 'Modbus writes change only the register\'s own bits and words',
  'For every value and register layout, writing a register sends requests that put exactly the value\'s bits into the register\'s words and bits in the configured order and leave every other bit of those words at the value last read from the device; neighbouring registers are never touched, and the value then read back from a device that stored the request is the value written.',
  [I, C, H], 'every value, previous register content, bit offset/width, word and byte order within the stated set', 'Read-modify-write errors show only for particular neighbouring bits.',
  ['src/modbus_common.cpp'], [('WriteRegister, ComposeNumberWriteRequestWords', 'src/modbus_common.cpp')], ['Modbus::WriteRegister through IModbusTraits/TPort'])
P('C17', 'Grouped Modbus reads cover every register and respect the limits',
  'However registers are laid out, each request combines only registers of one type, reads one contiguous range that covers every register in the group, never exceeds the configured or protocol maximum, and never spans a gap larger than the allowed hole; a register that does not fit stays for a later request. No configuration makes the grouping lose a register or loop without progress.',
  [I, C], 'every address/size/type layout of the stated number of registers and every limit setting', 'Tests use three fixed layouts; the limits interact with arbitrary addresses.',
  ['src/modbus_common.cpp'], [('TModbusRegisterRange::Add', 'src/modbus_common.cpp')], ['TModbusRegisterRange'])
P('C18', 'Setup sections are written completely, in order and within limits',
  'When setup parameters are written, every configured item reaches the device with exactly its value, in the configured order; items are combined into one request only if adjacent and within the write limit, and a write that must preserve other bits preserves them. If the device refuses one item the driver either reports the failure or continues as documented, but never skips accepted items silently.',
  [I, C, F], 'every set of up to the stated number of items (address, value, width, bit range, access type) and every failing request', 'Tests have two fixed setup sections.',
  ['src/modbus_common.cpp', 'src/serial_device.cpp'], [('WriteSetupRegisters, WriteMultipleSetupRegisters, FillSetupRegistersCache', 'src/modbus_common.cpp')], ['Modbus::WriteSetupRegisters'])
P('C19', 'Modbus errors put registers and device into the documented state',
  'For every outcome of a read (success, timeout, malformed answer, each exception code), registers in the request end up available, in error or excluded exactly as documented: illegal function/address/value exceptions exclude a lone register (or, with holes in the range, switch hole reading off first), all other errors are transient and keep it polled. A failed read never delivers a value to a register.',
  [I, F, C], 'every exception code 0..255 and error kind, with and without holes and continue_polling_on_unsupported', 'Tests cover a few exception codes.',
  ['src/modbus_common.cpp'], [('ReadRegisterRange, ProcessRangeException', 'src/modbus_common.cpp')], ['Modbus::ReadRegisterRange'])
P('C20', 'Modbus I/O module blocks address their own registers',
  'For every secondary address of an I/O module, reads, writes and setup writes use the register addresses of that block (shifted by the documented amount per module) and its slave address, and never those of another module; a malformed slave id or secondary address is rejected when the configuration is loaded.',
  [I, C], 'every module number and register address', 'Tests use two module numbers.',
  ['src/devices/modbus_io_device.cpp'], [('TModbusIODevice', 'src/devices/modbus_io_device.cpp')], ['TModbusIODevice'])
# ---- Fast Modbus ------------------------------------------------------------------------------
P('C21', 'Fast Modbus event packets deliver each event once and never overrun',
  'For every byte sequence received in answer to an events request, events are delivered to the visitor only from packets with a valid checksum, command and self-consistent sizes, each event exactly once with the id, type and data the packet carries; the confirmation for the next request names the slave and flag just processed. Broken packets raise an error and never cause reads outside the received data.',
  [I, F], 'every packet up to the stated length', 'Tests feed a few good packets and two bad ones.',
  ['src/modbus_ext_common.cpp'], [('ReadEvents, IterateOverEvents', 'src/modbus_ext_common.cpp')], ['ModbusExt::ReadEvents through TPort'])
P('C22', 'Fast Modbus event enabling covers every register and never overruns',
  'For every list of registers, the enable-events requests sent together name every register exactly once with its priority, each request stays within the packet limit and has a correct length field, and for every answer of the device each register is reported enabled or not exactly according to its bit; a short or inconsistent answer is rejected and never read beyond its end.',
  [I, C, F], 'every register list and answer within the stated sizes', 'Tests contain one register layout.',
  ['src/modbus_ext_common.cpp'], [('TEventsEnabler, TBitIterator', 'src/modbus_ext_common.cpp')], ['ModbusExt::TEventsEnabler::SendRequests'])
P('C23', 'Bus scan reports exactly the devices that answered',
  'For every sequence of scan answers, the scan returns exactly the devices whose answers had a valid checksum, with the slave id and serial number they announced, continues until the end-of-scan answer or silence, and stops on malformed data with an error instead of reporting a wrong device.',
  [I, F], 'every answer frame content, up to the stated number of devices', 'Tests have one canned scan.',
  ['src/modbus_ext_common.cpp'], [('Scan', 'src/modbus_ext_common.cpp')], ['ModbusExt::Scan through TPort'])
# ---- other device protocols -------------------------------------------------------------------
def dev(id, title, what, files, extra=''):
    P(id, title, 'For every reply a device may return (any length, any bytes, cut short or corrupted), a ' + what + ' exchange either delivers exactly the value encoded in an intact reply addressed to this request, or fails with a communication error that the driver handles; a value is never taken from a corrupted or foreign reply. Memory outside the received reply is never read or written, and requests carry the right address, command and checksum.' + extra,
      [I, F], 'every reply up to the stated length, every register address and device address in the stated range', 'Tests replay recorded good exchanges and one or two errors.',
      files, [('protocol implementation', files[0])], ['TSerialDevice::ReadRegisterRange/WriteRegister through TPort'])
dev('C24', 'Mercury 230 exchanges accept only intact answers', 'Mercury 230 meter', ['src/devices/mercury230_device.cpp', 'src/devices/em_device.cpp'], ' Replies carry no command, so size, address and checksum identify them. A register wider than a parameter or outside its array fails. A session the meter closed is opened again and the request repeated once, and an exchange ends whatever the meter answers. Only the error "invalid command" excludes a register from polling.')
dev('C25', 'Milur exchanges accept only intact answers', 'Milur meter', ['src/devices/milur_device.cpp', 'src/devices/em_device.cpp'], ' With one-byte and with four-byte addresses alike a session the meter closed is opened again and the request repeated once, and an exchange ends whatever the meter answers.')
dev('C26', 'Mercury 200 exchanges accept only intact answers', 'Mercury 200 meter', ['src/devices/mercury200_device.cpp'], ' Registers of one command share its reply within a cycle and only within it; the checksum is never part of a value.')
dev('C27', 'Uniel exchanges accept only intact answers', 'Uniel', ['src/devices/uniel_device.cpp'], ' Bytes before the start mark are skipped. A write succeeds exactly if the device confirmed the register and the value.')
dev('C28', 'Pulsar exchanges accept only intact answers', 'Pulsar heat meter', ['src/devices/pulsar_device.cpp'], ' A late reply to an earlier request is refused.')
dev('C29', 'LLS level sensor exchanges accept only intact answers', 'LLS sensor', ['src/devices/lls_device.cpp'], ' The checksum is never part of a value.')
dev('C30', 'IVTM thermometer exchanges accept only intact answers', 'IVTM thermometer', ['src/devices/ivtm_device.cpp'])
dev('C31', 'S2K relay exchanges accept only intact answers', 'S2K relay module', ['src/devices/s2k_device.cpp'], ' A relay write succeeds exactly if the device confirmed that relay, and relay registers always show what the device last confirmed for that relay; a relay outside 1..4 is an error.')
dev('C32', 'IEC 61107 meter exchanges accept only intact answers', 'IEC 61107 (Energomera, Neva, mode C) meter', ['src/iec_common.cpp', 'src/devices/energomera_iec_device.cpp', 'src/devices/neva_device.cpp', 'src/devices/energomera_iec_mode_c_device.cpp', 'src/devices/iec_mode_c_device.cpp'], ' Every set of registers is requested by one well-formed frame. A mode C session is open exactly if the meter agreed to every step, uses the settings of the meter, and leaves the port with its own settings afterwards, also if it could not be opened. Only an unsupported parameter excludes a register. (A mode C reply is identified by its checksum and the parameter name it begins with.)')
dev('C33', 'Energomera CE exchanges accept only intact answers', 'Energomera CE102M meter', ['src/devices/energomera_ce_device.cpp'], ' (The driver identifies a reply by its frame marks, escaping, checksum and class; it does not compare the addresses and the command inside it.)')
dev('C34', 'Curtain motor exchanges accept only intact answers', 'curtain motor (Dooya, Somfy, WinDeco, A-OK)', ['src/devices/curtains/dooya_device.cpp', 'src/devices/curtains/somfy_sdn_device.cpp', 'src/devices/curtains/windeco_device.cpp', 'src/devices/curtains/a_ok_device.cpp'], ' A write succeeds exactly if the motor confirmed it (A-OK motors and the Dooya tilt command have no confirmation), and a write to one field or bit of a parameter leaves the others as the motor has them.')
# ---- scheduling -------------------------------------------------------------------------------
P('C35', 'The poll scheduler runs due items in deadline and priority order',
  'For every set of scheduled items and every sequence of additions and selections, the scheduler offers only items whose time has come, high priority before low, earlier deadline before later, never loses, duplicates or invents an item, and the deadline it reports to wait for is the earliest pending one.',
  [I, H], 'every set of deadlines and priorities and every clock value for the stated number of items', 'Tests use three fixed timelines.',
  ['src/poll_plan.h'], [('TPriorityQueueSchedule, TScheduler', 'src/poll_plan.h')], ['TScheduler, TPriorityQueueSchedule'])
P('C36', 'Low-priority polling is never starved and never exceeds its share',
  'However long high-priority items take, a waiting low-priority item is served once the accumulated high-priority time exceeds the balancing threshold, its time budget never becomes negative or unbounded, and when only one priority has due items it is served without delay.',
  [I, H], 'every sequence of item durations up to the stated length', 'Tests simulate two fixed load patterns.',
  ['src/poll_plan.h'], [('TTotalTimeBalancer, TScheduler', 'src/poll_plan.h')], ['TScheduler'])
P('C37', 'Reads over the rate limit are noticed and nothing else is delayed',
  'For every sequence of events and clock values, the limiter reports being over the limit as soon as more reads than the limit were counted within one clock second, reports it only if more reads than the limit were made within the last second (so the limit is lifted after a second at most and a read within the limit is never delayed), and a limit of zero means no limit. While only high priority items may be selected because of the limit, low priority items are never selected.',
  [I, H], 'every non-decreasing sequence of instants and every limit within the stated bounds', 'One fixed sequence is tested.',
  ['src/poll_plan.h'], [('TRateLimiter', 'src/poll_plan.h')], ['TRateLimiter'])
P('C38', 'Every enabled register keeps being polled at its period',
  'For every combination of read periods, read rate limits, device answers, suspensions and clock steps, a readable register is polled in the first free cycle after its time has come and never earlier than one period after its previous poll: registers with a read period come first, the longest waiting ones first, a request has as many registers of one device as the allowed time permits, only registers without a read period wait because of the number of reads per second, and registers a device does not support delay nobody. Every read happens in an open session of its device, the session of the previous device is closed first. Polling of a lost device is delayed by no more than 10 s and its excluded registers come back; a suspended device is not polled until it is resumed or 10 minutes pass. With the port closed every register whose time has come gets a read error once. The poller asks to be called again no later than the time of any register.',
  [I, H, F], 'every period, clock step and success/failure pattern for the stated number of devices and steps', 'Tests run short canned cycles.',
  ['src/serial_client_register_poller.cpp', 'src/pollable_device.cpp'], [('TSerialClientRegisterPoller, TPollableDevice', 'src/serial_client_register_poller.cpp, src/pollable_device.cpp')], ['TPollableDevice, TSerialClientRegisterPoller::OpenPortCycle'])
P('C39', 'A device is declared disconnected and reconnected exactly as documented',
  'For every sequence of successful and failed exchanges and clock values, a device that was connected becomes disconnected exactly when both the configured time without a successful exchange has passed and the configured number of consecutive failed exchanges is reached, -1 in either parameter disables disconnection, the first successful exchange (also one the device answers with an error) connects it, every change is announced once, setup registers are written (in their documented order, each once) exactly when a session is opened with a device that is not connected, and every register read gets its own value or error.',
  [I, H, C], 'every sequence of outcomes and instants up to the stated length, every parameter value including 0 and -1', 'Needs arbitrary interleavings of time and outcomes; tests use one.',
  ['src/serial_device.cpp'], [('TSerialDevice::SetTransferResult', 'src/serial_device.cpp')], ['TSerialDevice::GetConnectionState'])
P('C40', 'The connection is reset exactly when time and failed cycles both expire',
  'For every sequence of successful and failed poll cycles and clock values, the port connection is reset exactly when it has been without a successful exchange for the configured time and the configured number of consecutive cycles failed; -1 in either parameter disables resetting, a successful cycle restarts both counts, and a failed reopening is retried no more often than the documented interval.',
  [I, H, C], 'every sequence of outcomes and instants up to the stated length, every parameter value including 0 and -1', 'Needs arbitrary time/outcome interleavings.',
  ['src/port/feature_port.cpp', 'src/serial_client.cpp', 'src/port/port.cpp'], [('TPortOpenCloseLogic', 'src/serial_client.cpp')], ['TPortOpenCloseLogic'])
P('C41', 'The last value written over MQTT is the one that reaches the device',
  'For every sequence of writes, device answers and clock values, the value finally sent to the device is the last valid one requested; a write that fails with a transient error is reported as a write error and retried until it succeeds or the configured time expires (at once if it is 0), a write the device refuses is not retried, and an invalid payload neither replaces a pending value nor sends anything.',
  [I, H, F], 'every sequence of writes and outcomes up to the stated length', 'Races of a new value against a retry need arbitrary histories.',
  ['src/register_handler.cpp', 'src/write_channel_serial_client_task.cpp'], [('TRegisterHandler', 'src/register_handler.cpp')], ['TRegisterHandler::SetTextValue, NeedToFlush, Flush'])
P('C42', 'MQTT channels show the device state: value, error flags and errors cleared',
  'After every cycle of polling and writing, whatever the device answered, the error of a control is exactly the set of flags (r, w, p) in force for its registers and the device itself is marked with an error exactly while it is disconnected; the value of the control is the composed value of its registers (texts joined by semicolons, 1/0 for the configured on/off values) as soon as all of them are known, never before, and is renewed by every successful exchange except while a write error is shown. Unchanged values are published again only as the publishing policy asks (never, every time, after an interval; button presses and the like every time). A press counter never reports a zero read after the device was lost until it has counted again. A value set over MQTT is written, with the on/off texts replaced, to the registers of the control in order, and a text with another number of parts is ignored. A control is announced with the type, limits, titles, flags and order of its channel.',
  [I, H], 'every sequence of values and error states up to the stated length', 'Tests check a few transitions.',
  ['src/serial_port_driver.cpp'], [('TDeviceChannel, TSerialPortDriver', 'src/serial_port_driver.cpp')], ['published MQTT values and errors'])
P('C56', 'Events reach exactly their registers, and registers without events stay polled',
  'When a device is connected, events are asked for exactly for its registers that are configured for them (with their priority); a register is excluded from polling exactly if the device accepted and the register is configured to be read by events only, and stays polled if the device refuses, does not know events or does not answer (of a device with event registers only one register stays polled, with a limited rate). Every event sets the value of every register of its address, its own bits only, and removes its reading error; events nobody asked for are disabled, a restart event makes exactly its device be set up again and is confirmed then, and a lost device has no events. Registers read by events get a reading error exactly after too many failures in a row or when the port is closed, and lose it when events are read again, unless their device is lost or they hold their error value.',
  [I, H, F], 'every set of registers, acceptance, packet of events and sequence of failures up to the stated size', 'Tests replay fixed packets.',
  ['src/serial_client_events_reader.cpp', 'src/modbus_ext_common.cpp'], [('TSerialClientEventsReader', 'src/serial_client_events_reader.cpp')], ['TSerialClientEventsReader::EnableEvents, ReadEvents, SetReadErrors'])
P('C57', 'The serial client gives every written value its turn and reports every outcome',
  'For every sequence of values set over MQTT (also while the client waits), openings of the port, sessions and answers: a value that is set is sent once per cycle to its register until it is accepted, refused for good, replaced by a newer value or given up after the configured time; nothing is sent through a closed port, to a disconnected device, to a device whose session is not open, or to a register its firmware does not have; every failure or postponement is reported as a write error and every success as a value; reading goes on meanwhile, every outcome of a reading is reported, and a cycle does not wait longer than its limit. Events of a device are read once in every period of the bus speed and not more often, polling of other registers goes on within a bounded time whatever the durations of requests are, and while the port is closed registers read by events are reported with errors.',
  [I, H, F], 'every history of the stated length with every outcome and clock step', 'Tests check a few fixed histories.',
  ['src/serial_client.cpp', 'src/write_channel_serial_client_task.cpp', 'src/serial_client_device_access_handler.cpp'], [('TSerialClient::Cycle, SetTextValue, WaitForPollAndFlush', 'src/serial_client.cpp'), ('TWriteChannelSerialClientTask::Run', 'src/write_channel_serial_client_task.cpp')], ['TSerialClient::SetTextValue, Cycle and the callbacks'])
P('C43', 'Register values keep value and error state consistent across updates',
  'For every sequence of reads, errors and state changes, a register reports exactly the set of errors that are in force, becomes available, unavailable or excluded from polling exactly on the corresponding event, reports a missed poll interval exactly when the average period is 10% too long, and two register values compare equal exactly when they hold the same data of the same kind.',
  [I, H], 'every sequence of events up to the stated length', 'State combinations are exponential.',
  ['src/register.cpp', 'src/register_value.cpp'], [('TRegister::SetValue/SetError, TRegisterValue', 'src/register.cpp')], ['TRegister, TRegisterValue'])
# ---- ports ------------------------------------------------------------------------------------
P('C44', 'Frames read from a port contain exactly the received bytes, within the buffer',
  'For every way the bytes of a reply arrive (any chunks, pauses, extra bytes) reading a frame returns exactly the bytes received in order, never more than the buffer holds, ends when the frame is complete, full or silent for the frame timeout, and reports a timeout if nothing arrives in time.',
  [I, S, F], 'every chunking and timing up to the stated number of chunks', 'Serial timing is arbitrary; tests use one.',
  ['src/port/file_descriptor_port.cpp', 'src/port/port.cpp'], [('TFileDescriptorPort::ReadFrame', 'src/port/file_descriptor_port.cpp')], ['TFileDescriptorPort::ReadFrame'])
P('C45', 'Timeouts derived from the line speed are never too short',
  'For every baud rate and line format, the computed time to send n bytes is at least the true transmission time and less than one microsecond (per documented rounding) above it, grows with n, and the effective response and frame timeouts are never below the configured or the computed value.',
  [I, C], 'every byte count, baud rate, stop bit and parity setting in the stated range', 'Rounding and overflow depend on the numbers.',
  ['src/port/port.cpp', 'src/port/serial_port.cpp', 'src/serial_device.cpp', 'src/devices/modbus_device.cpp'], [('GetSendTimeBytes, GetResponseTimeout, GetFrameTimeout', 'src/port/serial_port.cpp')], ['TPort::GetSendTimeBytes'])
# ---- configuration ----------------------------------------------------------------------------
P('C46', 'Register addresses in the configuration are parsed exactly',
  'For every address text (number, decimal or 0x string, with optional :shift:width), parsing gives exactly the written address, bit offset and width or rejects the text; a subdevice\'s registers are shifted by exactly its base, stride and shift settings, and values outside the representable range are rejected, never wrapped; a bit offset outside of the value of the format is rejected.',
  [I, C], 'every string up to the stated length and every integer', 'Tests use well-formed addresses.',
  ['src/serial_config.cpp'], [('LoadRegisterBitsAddress, GetInt', 'src/serial_config.cpp')], ['LoadRegisterBitsAddress, LoadRegisterConfig'])
P('C47', 'User settings override templates only where that is allowed',
  'For every template and user configuration, the merged device configuration contains every user-set property that may be overridden, the template value for every property that may not, every template channel and every additional user channel exactly once, only the setup items and channels whose conditions hold, and each configured parameter with the user value.',
  [I, C], 'every presence/absence and value combination of the modelled properties', 'The number of combinations is exponential.',
  ['src/config_merge_template.cpp'], [('MergeDeviceConfigWithTemplate', 'src/config_merge_template.cpp')], ['MergeDeviceConfigWithTemplate'])
P('C55', 'Templates in use are those of the files, and only consistent ones are used',
  'After any sequence of changed and removed template files, every device type has a template exactly if there is a file of it, the last changed file of the user replaces all others, and every change reports exactly the types it affects. A template is accepted exactly if its conditions can be parsed, its write addresses and repeated parameter declarations are consistent, and its subdevices exist and do not contain themselves; an accepted template can be merged, its parameters become a list and every item depends on exactly the parameters of its condition.',
  [I, H], 'every history of files and every combination of the modelled sections', 'Histories and references between subdevices are exponential.',
  ['src/templates_map.cpp'], [('TTemplateMap::UpdateTemplate, DeleteTemplate, ValidateTemplate', 'src/templates_map.cpp')], ['TTemplateMap'])
P('C58', 'The devices built from a configuration are exactly the configured ones',
  'For every configuration, a device has a control for every enabled or hidden channel of it and its subdevices, named by its path, in order, with the registers at the address shifted by all subdevices above it, its type, limits, on/off values, access and rate limit; setup items exist for exactly the enabled parts; a broken plain channel is left out alone while an inconsistent multi-register one is an error; two devices of one protocol on one port never share an address and two devices never share an identifier.',
  [I, C], 'every combination of the modelled options and every number in them', 'Tests load a few example files.',
  ['src/serial_config.cpp'], [('TSerialDeviceFactory::CreateDevice, LoadChannel', 'src/serial_config.cpp'), ('TPortConfig::AddDevice, CheckDuplicateDeviceIds', 'src/serial_config.cpp')], ['TSerialDeviceFactory::CreateDevice, TPortConfig::AddDevice'])
# ---- firmware / RPC ---------------------------------------------------------------------------
P('C48', 'A firmware update succeeds only if the device accepted every block',
  'For every image and every sequence of device answers (acceptance, exception of any code, silence, damaged reply), flashing tells the device to restart in its bootloader if asked to (with the command that preserves port settings if the device has it; silence counts as acceptance only for the other command), sends the description and then every data block in order with exactly the bytes of the image (the last one padded to a whole register), repeats a block that was not accepted at most twice, sends nothing after a failure, reports progress after every accepted block, and reports success exactly if the device accepted everything (exception 4 means the block was written already); otherwise one error is reported.',
  [I, F, H], 'every image up to the stated size and every sequence of answers', 'Fault sequences are exponential; tests have a few.',
  ['src/rpc/rpc_fw_update_task.cpp'], [('FlashFirmware, WriteDataBlock, TFwFlashTask', 'src/rpc/rpc_fw_update_task.cpp')], ['FlashFirmware through IModbusTraits/TPort', 'TFwFlashTask'])
P('C49', 'Firmware updates: one at a time, the released image, a state that tells the end',
  'For every sequence of changes the published state contains exactly the updates in progress or failed, each with its own progress and error, and an update counts as active exactly while its progress is below 100 and it has no error. For every request, release index, firmware file and device behaviour: a request has one answer, a second update is refused while one runs and the next one is possible afterwards, exactly the version released for the signature and suite of the device is flashed (after a bootloader the firmware is restored; components only if their version differs), a failed update stays in the state as an error until it is cleared, a successful one leaves nothing, and none stays active after its end. The description of a device gives its versions, the released ones and whether they are newer, and writes nothing to the device. Files and indexes that can not be loaded are not cached, loaded ones expire.',
  [I, F, H], 'every event sequence and fault up to the stated length', 'Histories and fault points are exponential.',
  ['src/rpc/rpc_fw_update_state.cpp', 'src/rpc/rpc_fw_update_handler.cpp', 'src/rpc/rpc_fw_update_serial_client_task.cpp', 'src/rpc/rpc_fw_restore_task.cpp', 'src/rpc/rpc_fw_get_firmware_info_task.cpp', 'src/rpc/rpc_fw_downloader.cpp'],
  [('TFwUpdateState, TUpdateNotifier', 'src/rpc/rpc_fw_update_state.cpp'), ('TRPCFwUpdateHandler', 'src/rpc/rpc_fw_update_handler.cpp'), ('TFwUpdateSerialClientTask', 'src/rpc/rpc_fw_update_serial_client_task.cpp'), ('TFwRestoreTask', 'src/rpc/rpc_fw_restore_task.cpp'), ('TFwDownloader', 'src/rpc/rpc_fw_downloader.cpp')], ['TRPCFwUpdateHandler', 'published state'])
P('C50', 'Direct port access over RPC sends exactly the request and returns the answer',
  'For every RPC port request the bytes written to the port are exactly the requested message (or the Modbus frame with the requested slave id, function, address, count and data) and the response is exactly the received bytes in the requested format (hex or text); an exception of the device, silence and damaged answers are reported as errors, every request gets exactly one answer, and a message, size, address, count or function that is malformed or out of range is refused and nothing is sent. A write drops the cached parameters of the device whether or not its answer arrives. Port setup sends exactly the requested connection settings to the requested device (and to no other), a probe reports a device exactly if it answered and with what it answered, and a scan reports exactly the devices which answered it, once each.',
  [I, F], 'every message and reply up to the stated length', 'Tests check a single exchange.',
  ['src/rpc/rpc_port_load_request.cpp', 'src/rpc/rpc_port_load_raw_serial_client_task.cpp', 'src/rpc/rpc_port_load_modbus_serial_client_task.cpp', 'src/rpc/rpc_port_setup_serial_client_task.cpp', 'src/rpc/rpc_device_probe_task.cpp', 'src/rpc/rpc_port_scan_serial_client_task.cpp', 'src/rpc/rpc_port_handler.cpp'], [('request parsing and tasks', 'src/rpc/rpc_port_load_*'), ('TRPCPortHandler', 'src/rpc/rpc_port_handler.cpp')], ['RPC request/response'])
P('C59', 'Device requests over RPC read and write exactly what is asked, answered once',
  'device/Load answers the value of every requested channel and parameter that exists in the template (those excluded by a condition or by the firmware version left out, those the device does not have reported as unsupported, never another value), and refuses unknown items. device/Set writes every requested channel and parameter to its register bits, nothing else, and reports success only if the device accepted all of it; a request with anything unknown or read-only changes nothing. device/LoadConfig returns the parameters the device has now, or the cached ones only while nobody has written to the device through the service, and recognises the model of the device. Lost messages are retried and end in a value or in an error, reading leaves the device as it was, values appear as texts or numbers without loss, and every request gets exactly one answer.',
  [I, F], 'every combination of requested items, device contents and lost messages', 'No test runs these requests against a device.',
  ['src/rpc/rpc_device_handler.cpp', 'src/rpc/rpc_device_load_task.cpp', 'src/rpc/rpc_device_set_task.cpp', 'src/rpc/rpc_device_load_config_task.cpp', 'src/rpc/rpc_helpers.cpp'], [('TRPCDeviceHandler', 'src/rpc/rpc_device_handler.cpp'), ('tasks', 'src/rpc/rpc_device_*_task.cpp')], ['RPC request/response'])
P('C60', 'Uploading or deleting a template changes exactly that template or nothing',
  'templates/Upload with a valid template stores it as exactly one file in the directory of user templates under a safe name derived from the requested one (whatever characters that has, never outside the directory and never over a template of another type), replaces the previous user template of the type, is used from then on and after a restart, and drops the cached schema. templates/Delete removes exactly the file of the user template in use and the next template of the type is used. A template in use by a configured device is only changed with force. A refused or failed request (bad JSON, no device type, deprecated, invalid, full or failing disk, unreadable file) changes neither files nor the templates in use, and wherever the process dies the directory holds the complete old template or the complete new one.',
  [I, F, C], 'every combination of existing templates, names and contents; every failing file operation and every crash point between operations', 'Tests upload on a working disk only.',
  ['src/rpc/rpc_templates_handler.cpp', 'src/templates_map.cpp', 'src/rpc/rpc_device_type_json.cpp'], [('TRPCTemplatesHandler', 'src/rpc/rpc_templates_handler.cpp')], ['templates/Upload', 'templates/Delete'])
P('C61', 'The service runs exactly the configured devices; old formats keep their meaning',
  'Loading a configuration yields exactly its enabled ports, in order, each with its type, address or path, line settings, delays, limits and connection settings, and on each exactly the enabled devices with their identifiers, protocol (the TCP variant on a Modbus TCP port) and channels; common settings (rate limit, republishing period with its lower bound, debug) are as configured or the documented defaults. A configuration with two enabled ports of the same path or address, two devices with the same identifier or the same address and protocol on a port, an unknown port type, device type or a protocol unfit for the port is refused as a whole. A configuration in an old format (poll_interval, numeric or empty slave ids, numeric passwords and enum values, settings of channels that are not in the template) is converted into the equivalent present one, converting again changes nothing, an unknown device type is left alone, and the editor is given that same configuration.',
  [I, C], 'every combination of ports, devices, settings and old formats', 'Tests load a few fixed files.',
  ['src/serial_config.cpp', 'src/old_serial_config.cpp', 'src/confed_json_generator.cpp', 'src/rpc/rpc_config.cpp'], [('LoadConfig', 'src/serial_config.cpp'), ('FixOldConfigFormat', 'src/old_serial_config.cpp')], ['configuration file'])
P('C51', 'DLMS/COSEM exchanges decode values exactly',
  'For every reply a DLMS/COSEM meter may return, a read either delivers exactly the value of the requested object or fails with a communication error the driver handles.',
  [I, F], 'every reply', 'Tests replay one session.',
  ['src/devices/dlms_device.cpp'], [('TDlmsDevice', 'src/devices/dlms_device.cpp')], ['TDlmsDevice'])
P('C52', 'Concurrent MQTT, RPC and polling threads never race on shared state',
  'For every interleaving of the MQTT, RPC and port polling threads, shared register, task queue and template state is accessed without data races and no accepted task or write is lost.',
  [S], 'every thread schedule', 'Schedules cannot be enumerated by tests.',
  ['src/serial_client.cpp', 'src/register_handler.cpp', 'src/templates_map.cpp'], [('mutexes and task queue', 'src/serial_client.cpp')], ['TSerialClient'])
P('C54', 'Directory walks and file access report exactly what is there',
  'Walking a directory visits every entry whose name contains the pattern, each once (in sorted order when asked to), stops at the entry accepted by the visitor and returns its path, and returns nothing if none is accepted; a missing directory is always reported as an error. Opening one of several candidate files opens the first that exists. A file written holds exactly the given text, and failure to open or write it is reported.',
  [I, F], 'every set of up to 3 files with names of the stated lengths, every pattern, every stop position', 'Tests use the fixed directory of the repository.',
  ['src/file_utils.cpp', 'src/file_utils.h'], [('IterateDir, IterateDirByPattern, TryOpen, WriteToFile', 'src/file_utils.cpp')], ['functions of file_utils.h'])
P('C53', 'Running average follows the measurements and never leaves their range',
  'After the first measurement the running average equals it; every further measurement moves it to nine tenths of the old value plus one tenth of the new one, so that it always stays between the smallest and the greatest value seen.',
  [I, H], 'every pair of state and new value', 'Tests cannot sample all rounding cases.',
  ['src/running_average.h'], [('TRunningAverage', 'src/running_average.h')], ['TRunningAverage::AddValue/GetValue'])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(p, 'w') as f:
    for d in OUT: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(OUT), 'properties')
