#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ core utilities
prop("C01", "Conditions evaluate exactly as documented for every expression and parameter set",
 "A condition expression used in device templates is accepted exactly when it conforms to the documented grammar, and is then evaluated with the documented operator precedence, left-to-right short-circuit logic and the documented rules for undefined parameters: a comparison with one is false except !=, which is true, a logical operation with an undefined operand is false, and isDefined() tells whether a parameter has a value. "
 "The reported list of dependencies contains exactly the parameter names the expression mentions. Text that is not an expression (numbers must fit 32 bits; text of unreasonable length is refused too) is rejected with a parse error, never with a crash, a hang or a silent guess.",
 ["inputs"], "every expression string (well-formed, nearly well-formed and arbitrary bytes, any nesting) and every assignment of 32-bit integers or 'undefined' to its identifiers",
 "the unit tests list about thirty fixed expressions; the space of nestings, precedences and undefined values is unbounded and malformed text is hardly sampled",
 ["src/expression_evaluator.cpp", "src/expression_evaluator.h", "src/config_merge_template.cpp"],
 [("recursive-descent parser and lexer", "src/expression_evaluator.cpp"), ("evaluation of the syntax tree and dependency collection", "src/expression_evaluator.cpp")],
 observe=["result of parse/eval/dependencies versus an independent interpreter"])

prop("C02", "Poll scheduling is deadline-ordered, starvation-free and rate-limited",
 "Among queued registers of one priority the one with the earliest due time is always served first and nothing is served before it is due, lost, or served twice; an entry stays queued until it is accepted. "
 "High-priority registers go first, but accumulated high-priority time makes low-priority registers get their turn, so neither class can starve the other for longer than the configured lag. "
 "The number of low-priority items admitted within any one-second accounting window never exceeds the configured limit by more than the one item that trips it.",
 ["histories", "inputs"], "every history of add/remove/select/time-report operations with arbitrary deadlines, priorities, poll durations and rate limits",
 "six fixed scenarios are tested with a handful of entries; heap order after removal, balancing bounds and window edges depend on long histories",
 ["src/poll_plan.h", "src/serial_client_register_poller.cpp"],
 [("priority queue with removal", "src/poll_plan.h TPriorityQueue"), ("high/low time balancing", "src/poll_plan.h TTotalTimeBalancer/TScheduler"), ("rate limiter", "src/poll_plan.h TRateLimiter")],
 state=[("queue", "pending entries with deadlines", "src/poll_plan.h")])

prop("C03", "Modbus frames are built per specification and malformed responses are rejected",
 "Every Modbus RTU or TCP request that is sent is byte-exact per the specification: unit id, function code, big-endian fields, correct CRC or a correct length header with a transaction id. "
 "A response is accepted only if it is complete, intact, from the addressed unit, for the function (and, over TCP, the transaction) requested, and then yields exactly the transferred payload; anything else is reported as an error, and a device's exception answer is reported with its code. "
 "No response, however malformed or truncated, makes the program read or write outside the received data.",
 ["inputs", "fault_sequences"], "every request the framing can express and every response byte string: valid, truncated, extended, bit-flipped, mismatched or random, in any split over reads",
 "unit tests replay a few recorded frames on a fake port; corrupt and short frames form an unbounded space and memory errors are invisible without sanitizers",
 ["src/modbus_base.cpp", "src/modbus_base.h", "src/crc16.cpp"],
 [("request and response PDU composition and checks", "src/modbus_base.cpp"), ("RTU/TCP framing and frame completion", "src/modbus_base.cpp"), ("CRC", "src/crc16.cpp")],
 observe=["bytes given to the port", "value or exception from the transaction"])

prop("C04", "Firmware version comparison is a consistent total order",
 "Comparing two firmware version strings is antisymmetric and transitive, numeric components compare as numbers, release candidates and other pre-release suffixes sort below the release and in order of their numbers, and any string at all compares without a crash or an exception. "
 "As a result a channel restricted to a firmware version is read exactly when the device's version is not older.",
 ["inputs"], "all pairs and triples of version-like and arbitrary strings, including huge numbers and empty components",
 "unit tests compare a short list of version pairs; order axioms quantify over all triples and overflow only shows on extreme digits",
 ["src/common_utils.cpp", "src/serial_client_register_poller.cpp", "src/register.cpp"],
 [("version comparison", "src/common_utils.cpp util::CompareVersionStrings")])

prop("C05", "Names become valid MQTT topics and valid names are unchanged",
 "Turning any text into an MQTT topic name always yields a name the validity test accepts, never contains topic separators or wildcards, is idempotent, and returns text unchanged if and only if it was already valid. "
 "Every forbidden character is replaced by its fixed substitute (quotes and slash by |, plus by _plus_, dollar and hash by _), leaving all other characters and their order intact.",
 ["inputs"], "every byte string",
 "tests list a few strings; embedded and multi-byte characters and repeated forbidden characters are not covered",
 ["src/common_utils.cpp"], [("topic validation and conversion", "src/common_utils.cpp util::IsValidMqttTopicString / ConvertToMqttTopicValidString")])

prop("C06", "Byte stuffing, integer packing and CRC/BCD helpers are lossless and exact",
 "Escaping a frame and un-escaping it returns the original bytes for every escaping table, escaped data never contains a bare delimiter, and un-escaping of incomplete input never runs past the data. "
 "Packing integers into bytes of any width up to that of the type and reading them back (little or big endian) returns the same value, never touches bytes outside the requested range, and the CRC-16 and packed-decimal conversions agree with their mathematical definitions for every input.",
 ["inputs"], "every byte string, escaping table, integer width/value and offset",
 "ten unit tests check one or two fixed vectors each",
 ["src/bin_utils.cpp", "src/bin_utils.h", "src/crc16.cpp", "src/bcd_utils.cpp"],
 [("stuffing", "src/bin_utils.cpp"), ("integer packing", "src/bin_utils.h"), ("CRC-16", "src/crc16.cpp"), ("packed decimal", "src/bcd_utils.cpp")])

# ------------------------------------------------------------------ value codec
prop("V01", "Raw register contents and text values convert exactly as configured",
 "For every data format, word and byte order, scale, offset and rounding, the published text of a register is exactly the configured interpretation of its raw bits, and writing a text stores raw bits that read back as that same value (to the precision of the format). "
 "Values are never truncated, sign-flipped or byte-swapped in a way the configuration does not ask for.",
 ["inputs", "configurations"], "all formats x orders x scales/offsets/rounding x raw bit patterns (including extremes, NaN and 64-bit integers) and all values representable by the format",
 "tests check one or two values per format with scale 1; combinations with scale, rounding, orders and extremes are not enumerable by hand",
 ["src/register.cpp", "src/register_value.cpp", "src/register.h", "src/bcd_utils.cpp"],
 [("raw to text and text to raw", "src/register.cpp ConvertFromRawValue/ConvertToRawValue"), ("raw value container and word order", "src/register_value.cpp")])

prop("V02", "A rejected write has no effect",
 "A value that is not acceptable for the register (not a number — nan, infinity and numbers too large for any integer included —, empty, outside the accepted syntax, or with another number of items than the control has registers) is refused: nothing is sent to any device, the control shows a write error at most, the register's previously published value and any other pending write stay intact, and later polling never resurrects an earlier value as a write.",
 ["inputs", "histories"], "every sequence of valid and invalid values written to controls interleaved with polling",
 "tests write a few valid values; an invalid value in the middle of a history is not exercised",
 ["src/register_handler.cpp", "src/serial_port_driver.cpp", "src/register.cpp"],
 [("value conversion before queuing a write", "src/register_handler.cpp SetTextValue")],
 state=[("pending write", "value queued for the bus and its dirty flag", "src/register_handler.cpp")])

# ------------------------------------------------------------------ modbus
prop("M01", "Published Modbus values equal the device's memory",
 "Whenever a polled value of a register, bit field, multi-register number or string is published without an error, it equals what the device held at that address in the answered request, no matter how registers were grouped into one request, what gaps were read over, what limits are configured, what bits are extracted, or which word order is used.",
 ["inputs", "configurations", "histories"], "every set of registers (types, addresses, formats, bit offsets), grouping limits and device memory over many poll cycles",
 "integration tests use a few fixed device configurations with recorded traffic",
 ["src/modbus_common.cpp", "src/devices/modbus_device.cpp", "src/register.cpp", "src/serial_device.cpp"],
 [("grouping registers into ranges", "src/modbus_common.cpp TModbusRegisterRange"), ("response to register values", "src/modbus_common.cpp")],
 observe=["requests and answers at a simulated device", "values reported by the client"])

prop("M02", "Modbus read requests stay within configured and protocol limits",
 "A single read request never asks for more registers than the configured maximum or the protocol limit, never spans a gap larger than allowed, never mixes register types, and always covers at least one wanted register entirely. "
 "Registers the device reports as unavailable are excluded afterwards and are not requested again until the device reconnects, while their neighbours keep being polled.",
 ["configurations", "fault_sequences", "histories"], "every register layout, limit setting and pattern of exception answers from the device",
 "a few hand-written layouts with one unavailable register each are tested",
 ["src/modbus_common.cpp", "src/devices/modbus_device.cpp", "src/serial_client_register_poller.cpp"],
 [("range growth limits", "src/modbus_common.cpp TModbusRegisterRange::Add"), ("splitting ranges on illegal address/value answers", "src/modbus_common.cpp")])

prop("M03", "A write changes exactly the addressed registers or bits",
 "Writing a value to a control changes in the device exactly the bits or registers configured for it, to the exact encoding of the value; neighbouring bits of the same register keep what the device or an earlier write put there and no other register is touched. "
 "Write requests never carry more registers than allowed.",
 ["inputs", "configurations", "histories"], "every register type, format, width, bit offset, write address and sequence of writes against arbitrary device memory",
 "tests write a few constants; interplay of several bit fields in one register and multi-request writes is not explored",
 ["src/modbus_common.cpp", "src/devices/modbus_device.cpp"],
 [("write PDU composition", "src/modbus_common.cpp ComposeWriteRequests"), ("read-modify-write cache of partially addressed registers", "src/modbus_common.cpp")],
 state=[("partial register cache", "last known contents of registers written bit-wise", "src/modbus_common.cpp")])

prop("M04", "Bad answers never become values and faults heal",
 "While a device is silent, answers garbage, wrong-length, foreign or exception frames, the affected registers show a read error and keep no invented value; nothing read from a damaged or foreign answer is ever published. "
 "Once the device answers correctly again all its registers are polled, their errors cleared and correct values published; the program never crashes, hangs or leaks the fault into other devices on the port.",
 ["fault_sequences", "histories"], "every interleaving of correct answers with silence, truncation, corruption, foreign ids, wrong function codes, wrong byte counts, exceptions and noise",
 "each integration test injects one fault type at one point",
 ["src/modbus_common.cpp", "src/modbus_base.cpp", "src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/serial_device.cpp"],
 [("response validation", "src/modbus_base.cpp"), ("read error marking and retry", "src/modbus_common.cpp, src/serial_client_register_poller.cpp")])

prop("M05", "Setup values are written on every connection before the device is polled",
 "Each time a device becomes reachable (start, recovery from a disconnect, detected restart) every setup item is written, with the configured value and in the configured order, before its registers are polled; a failing setup write makes the device be treated as unprepared and the sequence be repeated. "
 "When setup items are written in groups, the registers between them are neither skipped nor altered.",
 ["configurations", "fault_sequences", "histories"], "every list of setup items (adjacent, overlapping, partial, unsupported) and every failure/reconnect pattern",
 "tests use a fixed setup section and one failure",
 ["src/modbus_common.cpp", "src/serial_device.cpp", "src/serial_client_device_access_handler.cpp", "src/devices/modbus_device.cpp"],
 [("device preparation", "src/serial_device.cpp Prepare/WriteSetupRegisters"), ("ordered setup items", "src/serial_device.cpp AddSetupItem"), ("grouped setup writes", "src/modbus_common.cpp")])

prop("M06", "Fast Modbus events are delivered, confirmed and survive hostile frames",
 "Events sent by a device that supports fast polling update exactly the registers they name with exactly the carried value, are confirmed to that device so none is repeated or lost, and a device restart event makes the device be set up again; events of unknown devices or registers change nothing; every event of a register polled no more is published, even if its value is the same. "
 "Requests enabling events enable exactly the wanted registers (those with a read period as urgent), and no event or scan answer, however malformed, makes the program read outside the frame or report data the frame does not carry.",
 ["inputs", "histories", "fault_sequences"], "every event frame (well-formed or hostile), every set of enabled registers and every order of events, losses and restarts",
 "tests replay a few recorded frames",
 ["src/modbus_ext_common.cpp", "src/modbus_ext_common.h", "src/serial_client_events_reader.cpp"],
 [("event frame parsing", "src/modbus_ext_common.cpp IterateOverEvents"), ("event enabling", "src/modbus_ext_common.cpp TEventsEnabler"), ("confirmation state", "src/modbus_ext_common.cpp TEventConfirmationState"), ("mapping events to registers", "src/serial_client_events_reader.cpp")])

# ------------------------------------------------------------------ serial client
prop("S01", "The last value written to a control reaches the device or is reported failed",
 "After a value is written to a control, the device receives it, or, if the device keeps failing for the configured write time, the write is dropped and the control shows a write error, every value being tried at least once and for that whole time; when several values are written before the bus gets to them only the latest counts, an older value is never sent after a newer one, and nothing is written that was not requested. "
 "A write is not lost because the device was disconnected or the port was reopened in between.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of control writes with polling, disconnects, transient and permanent write errors",
 "tests issue single writes at fixed points of the poll cycle",
 ["src/register_handler.cpp", "src/write_channel_serial_client_task.cpp", "src/serial_client.cpp", "src/serial_port_driver.cpp"],
 [("dirty-value hand-over", "src/register_handler.cpp"), ("write retry", "src/write_channel_serial_client_task.cpp, src/serial_client.cpp")])

prop("S02", "Device connection state follows the device, and only that device",
 "A device that has answered is declared disconnected (shown in the device's own error) when, and only when, it has failed for both its configured time and its configured number of cycles, its controls show an error once they cannot be read, and it is declared connected again and its errors vanish after it answers. "
 "A failing device never makes another device's controls show errors, and unreachable devices are polled with growing but bounded delay so that they neither block the port nor stay disconnected after recovery.",
 ["fault_sequences", "histories"], "every timing of device failures and recoveries among several devices on one port",
 "tests step through a few fixed failure scenarios",
 ["src/serial_device.cpp", "src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/pollable_device.cpp"],
 [("connection state machine", "src/serial_device.cpp SetTransferResult/SetDisconnected"), ("disconnected poll delay", "src/pollable_device.cpp")])

prop("S03", "Every enabled register is polled at its configured pace",
 "Every readable register of a connected device is read again and again: with a read period at (close to) that period when the port has capacity, otherwise as often as the bus allows, never faster than its read-rate limit, and no register is starved by others. "
 "Registers covered by events are not polled while events work; a device whose polling is suspended is not polled until it is resumed or the suspension time runs out, and then all of its registers are polled again.",
 ["configurations", "histories", "schedules"], "every mixture of devices, periods, rate limits, sporadic registers, poll durations and suspend/resume commands",
 "poll tests use one device with one to four registers",
 ["src/serial_client_register_poller.cpp", "src/pollable_device.cpp", "src/poll_plan.h", "src/serial_client.cpp"],
 [("register and device queues", "src/pollable_device.cpp, src/serial_client_register_poller.cpp"), ("scheduler", "src/poll_plan.h")])

prop("S04", "MQTT shows the current state: values, errors and metadata",
 "At any quiescent moment each control's published value is the last value read successfully and its error flags are exactly the union of the current read, write and poll-interval problems of the registers behind it; a changed value or error is always published, an unchanged value is not republished before the configured interval, every push of a push button is published, the zero a press counter has after its device was lost is not; read-only controls accept no writes, the published limits, titles, type and precision are the configured ones, and controls that are configured no more are removed.",
 ["histories", "fault_sequences", "configurations"], "every history of value changes, errors, recoveries and writes for controls made of one or several registers",
 "integration tests compare fixed MQTT logs",
 ["src/serial_port_driver.cpp", "src/serial_driver.cpp", "src/register.cpp"],
 [("channel update and error aggregation", "src/serial_port_driver.cpp")])

prop("S05", "Port open/close handling recovers from every port failure",
 "If the port cannot be opened, fails while in use, or keeps failing for the configured time and cycles, all its devices are marked failing, the port is closed and reopened until it works, and then polling resumes with devices being set up again; no port error terminates the program, is spun on without delay, or leaves a closed port in use.",
 ["fault_sequences", "histories"], "every sequence of open, read and write failures of serial and TCP ports",
 "a few scripted failures on a fake port are tested; real file descriptors are not",
 ["src/serial_client.cpp", "src/port/tcp_port.cpp", "src/port/file_descriptor_port.cpp", "src/port/serial_port.cpp", "src/port/port.cpp"],
 [("open/close policy", "src/serial_client.cpp TPortOpenCloseLogic"), ("socket and descriptor error handling", "src/port/*.cpp")])

prop("S06", "Concurrent MQTT writes, RPC calls and polling are free of data races",
 "Control writes arriving from the MQTT thread, RPC requests, suspend/resume commands, template changes and several port threads may run at any time in any interleaving without data races, use of freed objects, deadlock or lost updates, and the service starts and stops cleanly at any moment.",
 ["schedules"], "every interleaving of MQTT, RPC, watcher and port threads, including stop during activity",
 "tests run single-threaded",
 ["src/serial_driver.cpp", "src/serial_port_driver.cpp", "src/serial_client.cpp", "src/register_handler.cpp", "src/register.cpp", "src/templates_map.cpp", "src/rpc/rpc_fw_update_state.cpp", "src/rpc/rpc_helpers.cpp"],
 [("mutexes around shared state", "src/register.cpp, src/register_handler.cpp, src/serial_client.cpp, src/serial_port_driver.cpp, src/templates_map.cpp")])

prop("S07", "Queued port tasks run exactly once, in order, and none is silently lost",
 "Every task queued to a port (control write, RPC operation) is executed exactly once or explicitly told that it will not be, tasks of equal standing run in the order they were queued, a task asking to be retried is retried, and polling continues between tasks. "
 "Tasks queued on a temporary connection run on it in order, and the connection is closed and its worker ended when it is released.",
 ["schedules", "histories"], "every interleaving of queuing, execution, retry, failure and shutdown",
 "tests queue one task at a time",
 ["src/serial_client.cpp", "src/serial_client.h", "src/rpc/rpc_port_driver_list.cpp"],
 [("task queue", "src/serial_client.cpp AddTask/ProcessTasks"), ("task executor for ports not in the configuration", "src/serial_client.cpp / src/rpc/rpc_port_driver_list.cpp")])

# ------------------------------------------------------------------ ports
prop("P01", "Ports deliver received bytes completely, in order and on time",
 "Reading a frame returns every byte that arrived, once and in order, ends as soon as the frame is complete or the inter-byte silence elapses, and fails with a timeout error when nothing arrives; noise is discarded only when asked, and a closed or broken connection is reported as a port error, never as data, a crash or an endless wait.",
 ["inputs", "schedules", "fault_sequences"], "every chunking and timing of incoming bytes, buffer size, timeout and disconnection moment on ptys and TCP sockets",
 "two tests send a fixed string over a pty",
 ["src/port/file_descriptor_port.cpp", "src/port/tcp_port.cpp", "src/port/serial_port.cpp", "src/port/port.cpp", "src/port/feature_port.cpp"],
 [("frame reading", "src/port/file_descriptor_port.cpp ReadFrame"), ("TCP reconnect handling", "src/port/tcp_port.cpp")])

# ------------------------------------------------------------------ devices
prop("D01", "Non-Modbus drivers report only intact answers and tolerate any bytes",
 "Whatever bytes a meter, sensor or motor answers — nothing, fragments, noise, answers with a wrong address, command or checksum, wrong lengths — the driver neither reads nor writes outside its buffers, nor hangs, nor lets an unexpected error escape; it reports an error instead of a value unless the answer passes the protocol's integrity check.",
 ["inputs", "fault_sequences"], "every driver x register x answer byte string, valid, mutated or random, in any chunking",
 "each driver is tested with a few recorded answers",
 ["src/devices", "src/iec_common.cpp"],
 [("answer checks in each driver", "src/devices/*.cpp"), ("IEC 62056-21 framing", "src/iec_common.cpp")])

prop("D02", "Energy-meter and sensor drivers decode what the device measured",
 "For a well-behaved device each supported register of every non-Modbus driver yields exactly the quantity the device holds, for every value the protocol can carry, through session opening, password exchange and re-opening after a lost session; writes reach the device with the exact encoding.",
 ["inputs", "histories"], "every register type of every driver x all representable device values x session histories",
 "recorded dialogues contain one value per register",
 ["src/devices/mercury230_device.cpp", "src/devices/mercury200_device.cpp", "src/devices/milur_device.cpp", "src/devices/energomera_ce_device.cpp", "src/devices/energomera_iec_device.cpp", "src/devices/iec_mode_c_device.cpp", "src/devices/neva_device.cpp", "src/devices/pulsar_device.cpp", "src/devices/s2k_device.cpp", "src/devices/uniel_device.cpp", "src/devices/lls_device.cpp", "src/devices/ivtm_device.cpp", "src/devices/em_device.cpp", "src/iec_common.cpp"],
 [("request composition and answer decoding", "src/devices/*.cpp")])

prop("D03", "Curtain motors receive exactly the commanded frames and report exact state",
 "Commands and position writes to curtain and blind motors produce the exact protocol frame with valid checksums for the addressed motor, and a reported position or state equals what the motor sent, for every supported motor protocol.",
 ["inputs"], "every motor protocol x command/position value x addresses x motor answers",
 "tests check one or two frames per protocol",
 ["src/devices/curtains/dooya_device.cpp", "src/devices/curtains/windeco_device.cpp", "src/devices/curtains/somfy_sdn_device.cpp", "src/devices/curtains/a_ok_device.cpp"],
 [("frame composition/parsing", "src/devices/curtains/*.cpp")])

# ------------------------------------------------------------------ configuration
prop("T01", "Every shipped template loads, and bad configurations are refused cleanly",
 "Every device template and sample configuration shipped with the service validates and can be turned into a device whose controls, registers and setup items are exactly those the template describes; the same configuration always gives the same result. "
 "A configuration that is malformed, of wrong types, refers to unknown templates or protocols, or defines the same port, device address or MQTT id twice is refused with an error message, never with a crash or a half-applied configuration.",
 ["configurations", "inputs"], "all shipped templates and protocols, and all mutations of valid configurations",
 "tests parse a dozen fixed configurations",
 ["src/serial_config.cpp", "src/templates_map.cpp", "src/config_schema_generator.cpp", "templates", "protocols", "wb-mqtt-serial-device-template.schema.json"],
 [("schema validation", "src/config_schema_generator.cpp"), ("configuration loading", "src/serial_config.cpp"), ("duplicate checks", "src/serial_config.cpp")])

prop("T02", "User settings merge with templates by fixed precedence",
 "A device's effective configuration is the template overridden by the user's settings: channels the user mentions change only in the allowed properties, a read-only channel cannot become writable, unmentioned channels stay as in the template, extra channels are added, channels, parameters and setup items with a false condition are absent, and setup items appear as user items, then parameters, then template items. "
 "Merging is deterministic and never modifies the template itself.",
 ["configurations"], "every template (with subdevices, oneOf, conditions, parameters) x every user configuration over it",
 "thirteen fixed merge examples",
 ["src/config_merge_template.cpp", "src/serial_config.cpp", "src/templates_map.cpp"],
 [("merge", "src/config_merge_template.cpp MergeDeviceConfigWithTemplate")])

prop("T03", "User template upload and removal are confined, validated and reversible",
 "Uploading a template stores a valid template under the user template folder and makes it effective at once; an invalid one changes nothing, on disk or in memory. "
 "Whatever device type or file name a request contains, no file outside the user template folder is ever created, changed or removed, a failed or interrupted upload leaves the earlier template intact, and deleting a user template restores the shipped one of the same type.",
 ["inputs", "histories", "fault_sequences"], "every sequence of uploads, overwrites, deletions and reloads with valid, invalid and hostile contents and names",
 "tests upload and delete one template",
 ["src/rpc/rpc_templates_handler.cpp", "src/templates_map.cpp"],
 [("name sanitising and atomic write", "src/rpc/rpc_templates_handler.cpp"), ("template index update", "src/templates_map.cpp")])

prop("T04", "The configuration editor sees every setting, device type and template",
 "Loading the configuration for the editor returns every port, device and setting of the file: only outdated forms are replaced by their modern equivalents (poll_interval, numeric addresses, passwords and enumerations, settings of channels that exist neither in the template nor by themselves), a second conversion changes nothing, and the file itself is not touched. "
 "The list of device types contains every known type exactly once, in its group, with its title in the requested language (English and the original text are the fallback), its protocol, identifiers and hardware signatures, ordered by title, and every custom protocol once; the schema of a type always contains the template now in effect, and everything it refers to is included.",
 ["configurations", "histories"], "every configuration (old and new forms) x every set of templates x languages x edits of templates between requests",
 "no test loads a configuration through the editor's requests",
 ["src/confed_json_generator.cpp", "src/old_serial_config.cpp", "src/rpc/rpc_config_handler.cpp", "src/rpc/rpc_device_type_json.cpp", "src/confed_schema_generator.cpp", "src/confed_device_schemas_map.cpp", "src/confed_protocol_schemas_map.cpp", "src/templates_map.cpp"],
 [("conversion of old formats", "src/old_serial_config.cpp FixOldConfigFormat"), ("device types", "src/rpc/rpc_config_handler.cpp GetDeviceTypes"), ("device schemas", "src/confed_schema_generator.cpp, src/confed_device_schemas_map.cpp")])

# ------------------------------------------------------------------ RPC
prop("R01", "Every RPC request gets exactly one reply",
 "Each RPC request — well-formed, malformed, for an unknown port or device, or failing halfway — is answered exactly once, with a result or with an error of the right kind, and never crashes, blocks or disturbs polling; nothing is sent to a device for a request that is refused.",
 ["inputs", "fault_sequences", "schedules"], "every method x request (schema-valid, invalid, wrong types) x device behaviour (answers, silence, garbage)",
 "tests send a few valid requests",
 ["src/rpc", "src/serial_client.cpp"],
 [("request validation", "src/rpc/rpc_helpers.cpp, *.schema.json"), ("callback discipline in tasks", "src/rpc/*_task.cpp")])

prop("R02", "port/Load transfers exactly the requested bytes and returns exactly the answer",
 "A raw or Modbus exchange requested over RPC sends exactly the requested bytes or Modbus request with the requested line settings and returns exactly the bytes or registers the device answered in the requested format; errors (timeouts, exceptions) are reported as such, and afterwards line settings and polling are as before.",
 ["inputs", "fault_sequences"], "every message, function code, address, count and answer",
 "one raw transceive test",
 ["src/rpc/rpc_port_load_raw_serial_client_task.cpp", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp", "src/rpc/rpc_port_load_request.cpp", "src/rpc/rpc_helpers.cpp"],
 [("request parsing", "src/rpc/rpc_port_load_request.cpp"), ("exchange", "src/rpc/rpc_port_load_*_task.cpp")])

prop("R03", "Parameter load and set through RPC agree with the device's memory",
 "Loading a device's parameters returns, for each parameter that applies to the device (its condition holds and its firmware supports it), exactly the value the device holds, and omits the others; setting parameters or channels writes exactly the given ones. "
 "Cached parameter values are returned only while they are still those of that device.",
 ["configurations", "inputs", "histories"], "every template with parameters, conditions and firmware limits x device memory x set requests",
 "three fixed examples of register lists",
 ["src/rpc/rpc_device_load_config_task.cpp", "src/rpc/rpc_device_load_task.cpp", "src/rpc/rpc_device_set_task.cpp", "src/rpc/rpc_device_handler.cpp", "src/rpc/rpc_helpers.cpp"],
 [("register list and conditions", "src/rpc/rpc_device_load_config_task.cpp, src/rpc/rpc_helpers.cpp")])

prop("R04", "A bus scan finds every device exactly once",
 "Scanning a port reports each answering device exactly once, with the serial number, address, model, firmware version and line settings it really has, ends after the devices are exhausted, and reports an unreadable attribute as an error of that device only; silent or noisy buses end the scan with an error or an empty list, never with invented devices or an endless loop.",
 ["inputs", "fault_sequences"], "every population of devices (serials, addresses, duplicates), model strings and answer faults during the scan",
 "no scan test exists beyond frame parsing",
 ["src/rpc/rpc_port_scan_serial_client_task.cpp", "src/modbus_ext_common.cpp", "src/rpc/rpc_device_probe_task.cpp"],
 [("scan start/next loop", "src/modbus_ext_common.cpp Scan"), ("device attribute reading", "src/rpc/rpc_port_scan_serial_client_task.cpp")])

prop("R05", "Firmware update sends the image exactly, in order, and one at a time",
 "A firmware update enters the bootloader, sends the information block and then every data block of the downloaded image in order, each block's bytes exactly as in the file, repeating a block only when it was not confirmed, and is reported finished only if all blocks were accepted; any failure is reported with the device, and never as success. "
 "At most one update runs at a time, its state is published truthfully, and after any outcome (including refusal of the request) another update can be started.",
 ["inputs", "fault_sequences", "histories"], "every image size, component kind, device answer pattern and sequence of update/restore/clear requests",
 "fixed scenarios with small images and single faults",
 ["src/rpc/rpc_fw_update_task.cpp", "src/rpc/rpc_fw_update_handler.cpp", "src/rpc/rpc_fw_update_state.cpp", "src/rpc/rpc_fw_update_serial_client_task.cpp", "src/rpc/rpc_fw_restore_task.cpp"],
 [("flashing", "src/rpc/rpc_fw_update_task.cpp"), ("update lock and state", "src/rpc/rpc_fw_update_handler.cpp, src/rpc/rpc_fw_update_state.cpp")])

prop("R06", "Firmware release data and images are parsed faithfully and defensively",
 "The version and image file offered for a device are exactly those the release index lists for its signature and release branch, an image whose size or structure is wrong is refused before anything is sent to a device, and malformed, missing or partial download data yields an error rather than a crash or a wrong file. "
 "Cached answers are reused only within their lifetime and only for the same address.",
 ["inputs", "histories"], "every release index, image and download failure pattern",
 "a few literal indexes are parsed in tests",
 ["src/rpc/rpc_fw_downloader.cpp", "src/rpc/rpc_fw_downloader.h"],
 [("index parsing", "src/rpc/rpc_fw_downloader.cpp"), ("image parsing", "src/rpc/rpc_fw_downloader.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
