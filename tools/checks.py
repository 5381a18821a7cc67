"""What each check runs."""


def part(name, srcs, quick, thorough, group='all', shim=True, flavor='asan', prog=None, **kw):
    build = {'name': prog or srcs[0].split('.')[0], 'srcs': srcs, 'flavor': flavor, 'group': group, 'shim': shim}
    for k in ('libs', 'flags'):
        if k in kw:
            build[k] = kw.pop(k)
    return dict(name=name, build=build, quick=quick, thorough=thorough, **kw)


def native(name, src, quick, thorough, **kw):
    return part(name, [src], quick, thorough, group='native', shim=False, **kw)


MSYS = ['m01_poll.cpp', 'm02_limits.cpp', 'm03_write.cpp', 'm04_faults.cpp', 'm05_setup.cpp', 'm06_events.cpp', 's01_writes.cpp', 's02_state.cpp', 's03_pace.cpp', 's04_shown.cpp', 's05_port.cpp', 's07_tasks.cpp', 'msys.cpp', 'sys.cpp', 'sim.cpp']


def msys(name, quick, thorough, **kw):
    return part(name, MSYS, quick, thorough, group='core', flavor='asan1', prog='msys', **kw)


DRV = ['d_drivers.cpp', 'sys.cpp', 'sim.cpp']
TCFG = ['tcfg.cpp', 'sys.cpp', 'sim.cpp']
RSYS = ['r02_load.cpp', 'r01_replies.cpp', 'r03_params.cpp', 'r04_scan.cpp', 'r05_fw.cpp', 'r06_release.cpp', 'rpcenv.cpp', 'msys.cpp', 'sys.cpp', 'sim.cpp']


def rsys(name, quick, thorough, **kw):
    return part(name, RSYS, quick, thorough, group='all', flavor='asan1', prog='rsys', libs='-lcurl', **kw)


# Properties without a check yet, and why
NOT_YET = {}

CHECKS = {
    'C01': dict(
        technique='ASan/UBSan run of generated and mutated expressions against an independent recogniser and interpreter',
        note='Every accept/reject decision, dependency set and value of the generated expressions is compared with a second implementation written from the documentation; trusts that implementation.',
        parts=[native('C01', 'c01_expr.cpp', 400, 20000)],
        rule='expressions seen both true and false by the monitor',
        require={'accepted': 10000, 'rejected': 10000, 'evaluations': 50000, 'huge': 10}, evaluations='evaluations'),
    'C02': dict(
        technique='random operation histories of the scheduler under sanitizers, online checker with a reference model',
        note='Online checker of every selection of random histories of the poll scheduler in virtual time; starvation bounds as in DESIGN.md.',
        parts=[native('C02', 'c02_plan.cpp', 160, 8000)],
        rule='histories with serving, refusal and removal; starvation runs with distinct timings; runs that hit the rate limit',
        require={'selections': 10000, 'offers': 10000, 'served': 10000, 'refused': 500, 'removed': 500,
                 'rate-limited-runs': 100, 'starvation-runs': 500}, evaluations='selections'),
    'C03': dict(
        technique='ASan/UBSan run of the transactions against a simulated port with valid, damaged and foreign answers; independent classification of every answer',
        note='Requests are compared byte by byte with an independent encoder; every answer is classified by an independent reading of the specification and compared with what the code did.',
        parts=[part('C03', ['c03_modbus.cpp', 'sim.cpp'], 240, 8000, group='core')],
        rule='answers, with their requests, whose acceptance was judged',
        require={'accepted': 5000, 'bad-answers': 5000, 'exceptions': 1000, 'register-values': 500, 'tcp-stale': 500},
        evaluations='register-reads'),
    'C04': dict(
        technique='order axioms and reference order checked on generated version pairs and triples under sanitizers',
        note='Axioms on sampled pairs and triples, biased to shared prefixes, huge numbers and suffixes.',
        parts=[native('C04', 'c04_version.cpp', 320, 10000)],
        rule='pairs of different versions whose order was compared with the reference order',
        require={'comparisons': 50000, 'huge': 4}, evaluations='comparisons'),
    'C05': dict(
        technique='generated byte strings under sanitizers against an independent character model',
        note='All one- and two-byte strings plus random longer ones.',
        parts=[native('C05', 'c05_topic.cpp', 160, 10000)],
        rule='names that contained a forbidden character', require={'strings': 50000, 'already-valid': 1000},
        evaluations='strings'),
    'C06': dict(
        technique='exhaustive small and random inputs under sanitizers against textbook definitions',
        note='Exhaustive for small widths, sampled beyond; sanitizers watch accesses outside the range.',
        parts=[native('C06', 'c06_bytes.cpp', 160, 8000)],
        rule='escaped frames that contained an escape sequence',
        require={'stuffed': 10000, 'decoded-any': 10000, 'packed': 50000, 'crc': 10000, 'bcd': 10000}, evaluations='packed'),
    'V01': dict(
        technique='ASan/UBSan run of reads and writes of generated registers against a simulated Modbus device; independent codec as oracle',
        note='The published text and the words left in the device are compared with an independent codec for every format, order, scale, offset and rounding; raw values include the extremes.',
        parts=[part('V01', ['v01_codec.cpp', 'sim.cpp'], 160, 6000, group='core')],
        rule='distinct (register description, text) pairs compared',
        require={'reads': 10000, 'writes': 8000}, evaluations='reads'),
    'M01': dict(
        technique='simulated installations run in virtual time; online monitor compares every published value with the device memory of the answered request',
        note='The program runs with its own wiring (configuration, drivers, serial client, poller) over simulated devices; every published value must be the decoding, by an independent codec, of what the device gave last.',
        parts=[msys('M01', 300, 9000)],
        rule='distinct (register, published value) pairs compared with the memory of the device',
        require={'published-values': 5000, 'published-multi': 20, 'writes': 100}, evaluations='published-values'),
    'M02': dict(
        technique='simulated installations run in virtual time; online monitor of every read request against the configured limits, offline check that every available register keeps being read',
        note='Limits, gaps, coverage and exclusion are recomputed from the configuration and the traffic for every request.',
        parts=[msys('M02', 120, 4000)],
        rule='distinct (request, device description) pairs judged',
        require={'requests': 20000, 'grouped': 1000, 'requests-with-gaps': 200, 'unavailable': 20, 'liveness-checked': 1000,
                 'disconnects': 20}, evaluations='requests'),
    'M03': dict(
        technique='simulated installations run in virtual time; the memory of the device after writes is compared word by word with an independent encoder',
        note='The whole memory of every simulated device is compared after each group of writes.',
        parts=[msys('M03', 300, 20000)],
        rule='distinct groups of writes whose effect on the memory was compared',
        require={'writes': 1000, 'field-writes': 30, 'registers-compared': 5000, 'read-only-writes': 30}, evaluations='registers-compared'),
    'M04': dict(
        technique='simulated installations run in virtual time with injected answer faults under sanitizers; online monitor of values and errors, offline check of recovery',
        note='Damage is limited to what the protocol can recognise (CRC with up to three flipped bits, lengths, unit, function, transaction).',
        parts=[msys('M04', 160, 6000)],
        rule='distinct histories of faults',
        require={'damaged-answers': 5000, 'good-answers': 5000, 'errors-shown': 200, 'healed-controls-checked': 1000,
                 'dead-controls-checked': 200, 'error-flags-compared': 100, 'clean-device-phases': 10}, evaluations='published-values'),
    'M05': dict(
        technique='simulated installations run in virtual time under sanitizers with failing and restarting devices; online monitor of setup writes against the configuration',
        note='Every read or write of a control after a connection was lost must be preceded by a complete, ordered, unfailed pass over the setup items; the device memory is compared afterwards.',
        parts=[msys('M05', 200, 9000)],
        rule='distinct preparations judged',
        require={'preparations': 300, 'items-checked': 1500, 'grouped-setup-writes': 100, 'failed-attempts': 200, 'restarts': 30,
                 'partial-words-written': 100, 'disconnects': 100, 'duplicate-items': 30}, evaluations='items-checked'),
    'M06': dict(
        technique='simulated devices with fast Modbus (queues of events, confirmations, restarts, refusals) run in virtual time under sanitizers; online monitor of confirmations, enabled registers and published values, and single exchanges with hostile frames judged against the frame built',
        note='Lost, repeated, damaged and malformed event answers, restarts, unwanted events, gateways without fast Modbus; at rest every control shows what its device holds.',
        parts=[msys('M06', 600, 12000)],
        rule='distinct frames with their outcome and distinct installations',
        require={'exchanges': 5000, 'events-read': 2000, 'enablings': 1000, 'registers-enabled': 5000, 'events': 5000, 'value-events': 3000, 'restarts': 50, 'reboot-events': 30, 'unwanted-events': 30, 'event-controls-judged': 500, 'not-polled-judged': 100,
                 'urgent-events-enabled': 100, 'events-awaited': 3000, 'restart-events-judged': 100},
        evaluations='exchanges'),
    'S01': dict(
        technique='simulated installations run in virtual time under sanitizers with writes injected at any moment and failing devices and ports; online order checker of the write requests, final state check',
        note='Values are unique where the width allows; every write request is matched with the history of requested values.',
        parts=[msys('S01', 300, 9000)],
        rule='distinct (fault story, device) histories',
        require={'requested-values': 3000, 'sent-values': 1500, 'final-values': 500, 'not-delivered': 10, 'refused-by-device': 50,
                 'series-judged': 200, 'survivals-judged': 40, 'newer-within-failing': 1000},
        evaluations='sent-values'),
    'V02': dict(
        technique='simulated installations run in virtual time under sanitizers with valid and invalid values injected at any moment; online conservation checker of the write requests',
        note='Nothing may be sent that was not requested by a valid value, and no valid value twice; texts of integer registers include nan, infinity and numbers too large.',
        parts=[msys('V02', 300, 9000)],
        rule='distinct (kind of invalid text, register) pairs',
        require={'invalid-values': 3000, 'requested-values': 2000, 'rejected-items': 200, 'rejected-nan': 200, 'rejected-not-a-number-after-good': 3},
        evaluations='invalid-values'),
    'S02': dict(
        technique='simulated installations run in virtual time under sanitizers with devices failing and recovering at any moment; online state-machine monitor of the published device errors against the answers',
        note='The number of failed transfers and the time since the last answer are recounted from the traffic; pauses of a device that does not answer are measured.',
        parts=[msys('S02', 200, 6000)],
        rule='distinct histories with a disconnection and a recovery',
        require={'disconnections-judged': 200, 'must-be-down': 500, 'pauses': 500, 'long-disconnections': 20, 'device-errors-cleared': 200,
                 'healed-controls': 300, 'refused-writes': 50}, evaluations='failed-transfers'),
    'S03': dict(
        technique='simulated installations run in virtual time under sanitizers; online monitor of the intervals between reads of every register and of suspended devices',
        note='Intervals are measured on the bus in virtual time with tolerances given in DESIGN.md; suspension, resumption, disconnection and expiry are mixed at random moments.',
        parts=[msys('S03', 160, 4000)],
        rule='distinct (installation, traffic) histories',
        require={'periods-measured': 1000, 'limits-measured': 1000, 'starvation-judged': 300, 'idle-judged': 20, 'suspensions': 100,
                 'resumptions': 50, 'suspended-when-disconnected': 30, 'resumed-registers': 200, 'paces-after-suspension': 200,
                 'port-limits-judged': 10}, evaluations='low-registers-judged'),
    'S04': dict(
        technique='simulated installations run in virtual time under sanitizers with changing values, failing answers and writes; online monitor compares values, error flags and publication times with the traffic after every cycle',
        note='After every cycle of the program each touched control is compared with the answers given so far; publications are judged against the configured interval.',
        parts=[msys('S04', 200, 6000)],
        rule='distinct histories',
        require={'states-compared': 50000, 'values-compared': 50000, 'read-errors-compared': 1000, 'write-errors-compared': 50, 'error-values': 100,
                 'republications-judged': 500, 'publish-all-judged': 1000, 'metadata-checked': 500, 'overloads-judged': 5, 'read-only-writes': 50,
                 'pushes-judged': 10, 'zeros-of-reboot': 200, 'counter-disconnections': 20}, evaluations='states-compared'),
    'S05': dict(
        technique='simulated installations run in virtual time under sanitizers while the port fails to open, fails in use or no device answers; online monitor of opening, closing, use of the port and of the errors shown',
        note='A port is lost, refuses to open, fails in all or some operations (closing itself or not), or its devices stop answering, in several phases, and then works again.',
        parts=[msys('S05', 200, 6000)],
        rule='distinct histories of phases with the numbers of openings and closings',
        require={'failing-devices-judged': 50, 'healthy-devices-judged': 200, 'must-be-closed-judged': 10, 'closed-by-failures': 20, 'open-tries': 100,
                 'writes-judged': 20, 'reads-after-setup-judged': 1000}, evaluations='healthy-devices-judged'),
    'S07': dict(
        technique='simulated installations run in virtual time under sanitizers while tasks are queued at any moment; monitor of the runs of every task, their order and of the polling in between',
        note='Tasks that cost time, ask to be retried, talk with devices and queue further tasks are added at random moments, in bursts and as a flood, also while the port is closed or no device answers.',
        parts=[msys('S07', 150, 6000)],
        rule='distinct histories of tasks',
        require={'tasks': 10000, 'retries': 5000, 'nested': 500, 'floods-judged': 20, 'sessions': 1000}, evaluations='tasks'),
    'P01': dict(
        technique='the serial and TCP ports run in real time over pseudo terminals and loopback sockets under sanitizers; online monitor of every call against the recorded stream and times of the other end',
        note='Chunks, gaps, noise, endless noise, hangups and resets come at random moments; timing is only reported when a history fails four times in a row; the requested line settings are taken from tcsetattr().',
        parts=[part('P01', ['p01_ports.cpp'], 24, 600, group='core', flavor='asan1', prog='p01', libs='-Wl,--wrap=tcsetattr')],
        rule='distinct histories (messages, chunks, sizes, settings)',
        require={'histories': 300, 'bytes-compared': 5000, 'ended-by-silence': 50, 'ended-by-size': 50, 'ended-by-predicate': 50, 'timeouts': 50, 'losses': 20, 'floods-judged': 10, 'settings-compared': 100, 'uses-of-closed-ports': 50, 'noise-skipped': 50}, evaluations='reads'),
    'D01': dict(
        technique='the drivers of 17 protocols exchange frames with simulated devices in virtual time under sanitizers; damaged, cut, wrong, hostile and missing answers; monitor of values, errors, exceptions and progress against the exact state of the device',
        note='Damage comes with broken and with proper checksums, to answers with data and to service answers; an answer which fails the protocol\'s check must not become a value, and good answers must be understood again afterwards.',
        parts=[part('D01', DRV, 5000, 150000, group='core', flavor='asan1', prog='drv')],
        rule='distinct (protocol, kind of damage, outcome, number of requests)',
        require={'hostile-reads': 80000, 'hostile-values-judged': 8000, 'hostile-errors': 50000, 'hostile-writes': 7000, 'recoveries': 12000}, evaluations='hostile-reads'),
    'D02': dict(
        technique='the drivers of 13 meter and sensor protocols exchange frames with simulated devices in virtual time under sanitizers; every request is judged by an independent model of the protocol, every value compared with the memory of the device',
        note='Random registers, formats, addresses, passwords and contents; sessions are lost and opened again; devices answer with errors.',
        parts=[part('D02', DRV, 4000, 120000, group='core', flavor='asan1', prog='drv')],
        rule='distinct (register, value) pairs compared',
        require={'values-compared': 50000, 'writes-compared': 1500, 'restarts': 4000, 'sessions': 3000, 'refused-reads': 5000}, evaluations='values-compared'),
    'D03': dict(
        technique='the drivers of 4 motor protocols exchange frames with simulated motors in virtual time under sanitizers; every sent frame is compared with an independent encoding, every value with the state of the motor',
        note='Random addresses, kinds of motors, positions, angles, commands and settings; motors refuse commands.',
        parts=[part('D03', DRV, 4000, 120000, group='core', flavor='asan1', prog='drv')],
        rule='distinct (register, value) pairs written or compared',
        require={'values-compared': 35000, 'writes-compared': 15000, 'refused-writes': 1000}, evaluations='values-compared'),
    'S06': dict(
        technique='the program with all its threads (ports, MQTT, two RPC servers, file watcher, task executors) runs in real time under ThreadSanitizer with simulated ports; monitor of replies, of written and shown values and of the stop',
        note='Data races and lock order inversions are reported by ThreadSanitizer from happens-before relations; control writes, requests of all kinds, edits of templates, faults and stops come at random moments.',
        parts=[part('S06', ['s06_race.cpp', 'sys.cpp', 'sim.cpp'], 60, 2000, group='all', flavor='tsan', prog='s06', libs='-lcurl', flags='-DSIM_REALTIME')],
        rule='distinct histories (numbers of writes, requests, template changes and device requests) and error texts',
        require={'writes': 2000, 'rpcs': 500}, evaluations='device-requests'),
    'T01': dict(
        technique='loading of every shipped template, of generated whole configurations, of ones with a definite mistake and of damaged ones under sanitizers; monitor compares the ports, devices, controls, registers and setup items with an independent model',
        note='Every template is loaded with nothing but an address and with generated settings; the result is compared with a model of the merge and of the configuration.',
        parts=[part('T01', TCFG, 340, 12000, group='core', flavor='asan1', prog='tcfg')], templates=True,
        rule='distinct configurations and refusals',
        require={'shipped': 300, 'limits': 150, 'with-settings': 100, 'devices': 600, 'mistakes': 250, 'damaged-loaded': 100, 'damaged-refused': 700}, evaluations='devices'),
    'T02': dict(
        technique='merging and loading of generated and shipped templates with generated user settings under sanitizers, compared with an independent model of the merge',
        note='Every merged configuration is compared with a model written from the property; generated templates are also loaded from files and the resulting device is compared with what the model describes.',
        parts=[part('T02', TCFG, 500, 20000, group='core', flavor='asan1', prog='tcfg')], templates=True,
        rule='template and user configuration pairs whose merge was judged',
        require={'merges': 700, 'loaded': 100, 'shipped': 150, 'shipped-loaded': 30, 'with-subdevices': 60}, evaluations='merges'),
    'T03': dict(
        technique='histories of uploads, removals, edits by hand and restarts against a scratch file system with injected faults and crashes, under sanitizers; monitor compares every file, the templates in effect, the lists and schemas with a model after each step and judges every path renamed or removed',
        note='Good templates, templates with one mistake, mutated ones; benign and hostile names and types; failing writes, renames and removals, death at every step of an upload.',
        parts=[part('T03', ['t03_templates.cpp', 'rpcenv.cpp', 'sys.cpp', 'sim.cpp'], 300, 10000, group='all', flavor='asan1', prog='t03', libs='-lcurl')],
        rule='distinct (kind of upload, file name, outcome, fault) and deletions',
        require={'requests': 2000, 'accepted': 300, 'refused': 300, 'refused-fault': 150, 'refused-in-use': 50, 'deletions': 100, 'deletions-refused': 200, 'crashes-in-writing': 15, 'crashes-at-calls': 15, 'paths-judged': 1000, 'contents-judged': 2000}, evaluations='snapshots-compared'),
    'T04': dict(
        technique='histories of template edits, configurations in old and new formats and editor requests under sanitizers; monitor compares every loaded configuration, list of types and schema with a model made from the raw files',
        note='Real and generated templates in several languages; the expected answer is computed from the files alone; every reference inside a schema must resolve; a configuration saved as it was shown must load the same.',
        parts=[part('T04', ['t04_editor.cpp', 'rpcenv.cpp', 'sys.cpp', 'sim.cpp'], 130, 5000, group='all', flavor='asan1', prog='t04', libs='-lcurl')],
        rule='distinct configurations shown and types in a language',
        require={'configurations': 400, 'types': 3000, 'schemas': 1200, 'edited': 100, 'removed': 30, 'references': 5000, 'conditions': 500, 'protocol-schemas': 200, 'unknown-types': 50, 'protocol-titles': 1000, 'broken-files': 30}, evaluations='types'),
    'R01': dict(
        technique='simulated installations run in virtual time under sanitizers while valid, mutated and hostile RPC requests of all methods are made at random moments with device and port faults; monitor counts the replies of every request and attributes every frame on the wire',
        note='Requests are generated from the request schemas and damaged; every request must be answered exactly once, nothing may be sent while no accepted request waits, and polling must go on with the configured line settings.',
        parts=[rsys('R01', 200, 6000)],
        rule='distinct (method, members with types, outcome) triples',
        require={'requests': 5000, 'mutated': 2000, 'refused': 1000, 'accepted': 1000, 'errors': 1000, 'results': 1000, 'timeouts': 20, 'polling-judged': 300},
        evaluations='requests'),
    'R02': dict(
        technique='simulated installations run in virtual time under sanitizers while RPC requests exchange bytes with devices; online monitor of the frames and line settings on the wire, offline comparison of the replies with the answers',
        note='Requests are made at random moments with random settings; answers are complete, short, long, silent, late, with pauses, damaged or exceptions; unanswerable requests must be refused without any traffic.',
        parts=[rsys('R02', 200, 6000)],
        rule='distinct (request, answer, reply) triples compared',
        require={'exchanges': 1000, 'raw-responses': 200, 'modbus-responses': 300, 'exceptions-returned': 50, 'errors-returned': 200, 'refused': 50, 'expired': 5}, evaluations='exchanges'),
    'R03': dict(
        technique='simulated installations with random templates run in virtual time under sanitizers while device parameters and channels are loaded and set through RPC; offline comparison of every reply with the memory of the devices and with the written registers',
        note='Random templates with conditions, firmware limits, read-only and write-only items, hardware signatures and continuous read; two ports with equal addresses; devices disappear, change and come back.',
        parts=[rsys('R03', 300, 6000)],
        rule='distinct (register, value) pairs compared',
        require={'loads': 200, 'config-loads': 200, 'sets-done': 100, 'values': 2000, 'written-values': 300, 'omitted': 500, 'unsupported-registers': 20, 'cached': 50, 'misfits': 20, 'disconnections': 20}, evaluations='values'),
    'R04': dict(
        technique='simulated installations run in virtual time under sanitizers while the bus is scanned and probed through RPC; a model of the fast Modbus arbitration with random devices, and offline comparison of every reply with what the devices answered',
        note='Populations of devices with random serial numbers (also extreme ones), equal addresses, line settings and command sets; spoilt, silent and exception answers to scan commands and attribute reads; serial lines, RTU over TCP, Modbus TCP with and without fast Modbus.',
        parts=[rsys('R04', 300, 8000)],
        rule='distinct found devices with the outcomes of the reads of their attributes',
        require={'scans': 300, 'whole-scans': 50, 'devices-found': 300, 'probes': 150, 'probe-details': 50, 'attributes-compared': 1000, 'attributes-unread': 100, 'damaged-scan-answers': 20, 'configured-compared': 30, 'repeating': 5},
        evaluations='devices-found'),
    'R06': dict(
        technique='generated release indexes, images, download histories and HTTP answers under sanitizers; independent model of the server decides every answer given to the updater',
        note='Indexes are rendered from a model in many ways and also damaged; histories run in virtual time with contents changing, failing downloads and expiring caches; the HTTP client talks with a hostile server on the loopback.',
        parts=[rsys('R06', 150, 6000)],
        rule='distinct indexes and histories of requests',
        require={'indexes': 1000, 'damaged-indexes': 1000, 'images': 1000, 'refused-images': 1000, 'versions': 1000, 'refused-urls': 1000, 'asked': 5000, 'answers-cached': 1000, 'answers-error': 1000, 'downloads-good': 50, 'downloads-failed': 50},
        evaluations='asked'),
    'R05': dict(
        technique='simulated installations run in virtual time under sanitizers while firmware is updated and restored through RPC; a model of a bootloader and offline comparison of the writes, the published states and the replies with the images',
        note='Images of random sizes, components, devices with and without preserved line settings, lost, damaged and refused answers at every step, failing downloads, requests in between and invalid requests.',
        parts=[rsys('R05', 300, 3000)],
        rule='distinct (kind of image, size, outcome, number of writes) and histories of requests',
        require={'requests': 800, 'flashes': 300, 'done': 200, 'failed': 100, 'done-firmware': 100, 'done-component': 50, 'done-bootloader': 20, 'blocks': 1000, 'repeated-blocks': 30, 'infos-compared': 80,
                 'refused-while-updating': 100, 'invalid': 80, 'progress-judged': 1000, 'states': 2000, 'polling-judged': 150}, evaluations='flashes'),
}
