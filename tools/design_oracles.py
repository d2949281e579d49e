"""Per property: what the harness compares the real code with."""
ORACLE = dict(
C01="a bitwise CRC-16/MODBUS written from the standard; linear algebra over GF(2) decides residues and burst errors.",
C02="byte arithmetic written out per width and order; guard bytes around the stream stay.",
C03="an independent escape/unescape and the scan for reserved bytes; arbitrary (also malformed) input terminates inside its buffer.",
C04="decimal value of the nibbles.",
C05="the MQTT rules of topic names, character by character, with UTF-8 bytes.",
C06="an order of (numbers, suffix) written from the documentation, reflexive, antisymmetric and transitive.",
C07="evaluation of the condition over three-valued parameters by a direct interpreter on the generated structure (the text is generated from it).",
C08="grammar recogniser for arbitrary texts: accepted or rejected with an exception, never read beyond the end; dependencies.",
C09="scale, offset and rounding as IEEE arithmetic; sign extension, BCD, float and text formats by definition.",
C10="inverse of C09: the raw value written is the nearest one representable, or the text is rejected; reading back gives the text.",
C11="PDU layout of the Modbus specification.",
C12="Modbus specification of replies: length, function, exception bit.",
C13="frame = id + PDU + CRC; only the reply of the asked device is accepted, other bytes are skipped or reported.",
C14="MBAP header fields; transaction id, length, unit id; stale frames are skipped until the timeout.",
C15="value of the words of the reply in the configured word and byte order, written out.",
C16="a memory of registers kept by the harness's device: after the write the field holds the value and all other bits are as before.",
C17="every register is read exactly once per cycle, by a request within the limits, over words that are configured or allowed holes.",
C18="a memory of the device: after setup every item has its value, also if partial registers share words.",
C19="table of the states after each reply (timeout, refused, broken, ok) per register.",
C20="as C15-C18 for modbus_io addressing.",
C21="layout of the events request and reply from the documentation of fast modbus events; confirmations.",
C22="layout of the enable request; the callback gets exactly the enabled flags of the reply.",
C23="list of devices answering on the harness's bus; the scan ends and lists each exactly once.",
C24="reply layouts of Mercury 23x; session, CRC and error codes.",
C25="reply layouts of Milur; session and error codes.",
C26="reply layouts of Mercury 200.",
C27="text protocol of Uniel with its checksum.",
C28="Pulsar frame layout, request id, CRC.",
C29="LLS frame layout with its CRC-8.",
C30="IVTM hex text protocol.",
C31="S2K layout, its CRC table and the relay states.",
C32="IEC 61107 mode A/C dialogue, block check, parsing of values.",
C33="Energomera CE frames, byte stuffing, CRC and reply parsing.",
C34="Somfy, Dooya, WindowLED and A-OK frames with their checksums; states that fit.",
C35="a reference queue (list of items with deadline, priority) run beside the real one.",
C36="ledger of the time given to each priority; a low priority item runs within a bounded number of rounds.",
C37="history of the events: the count within any window never exceeds the limit, and everything below it is allowed.",
C38="a reference poller: next deadline per register, exclusion, device state.",
C39="count of failures and time since the last success, written out.",
C40="count of failed cycles and time since the last good one, written out.",
C41="history of writes: the last valid value, retries and deadlines.",
C42="a model of the control: values and errors of its registers, publishing policy.",
C43="a model of the flags; equality by kind and content.",
C44="the byte stream scripted by the harness; what ReadFrame returns is a prefix of it at the right moments.",
C45="exact rational time of the line, compared by integer cross-multiplication.",
C46="the number is known by construction (digits are symbolic, their value is computed beside).",
C47="the merged configuration written out from the choices made.",
C48="a device that answers each block in any way; success is reported exactly if all were accepted.",
C49="a list of updates kept beside the state; a device, an HTTP server and a task runner simulated by the harness, with the list of images the device accepted; the release lists are written by the harness from a table.",
C50="the frames on a port scripted by the harness (a device, its registers and its faults), and the single reply of the call compared with what the device sent.",
C53="window of the last values kept beside.",
C54="the model file system.",
C55="a list of (file, type, time) kept beside; reachability of the type graph by closure.",
C56="a model of the device's enabled registers and of the polling/error state of each register.",
C57="a ledger of set values and what the port saw.",
C58="the list of channels and setup items written out while the configuration is generated.",
C59="a model device (its registers, versions, refused and lost requests) on a scripted port; the expected answer is computed from its registers and the template written by the harness.",
C60="the listing of the template directories before the request; the model file system whose operations fail or are crash points.",
C61="the lists of ports and devices and the configuration in the present format, written while the configuration is generated. The JSON-schema validation of the configuration is replaced by a stub that accepts or refuses everything (library code).",
)
CAUGHT = {}
