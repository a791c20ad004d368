#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

M, T, R, RT, U, H, S, RPC = ("modbus_tk/modbus.py", "modbus_tk/modbus_tcp.py", "modbus_tk/modbus_rtu.py",
    "modbus_tk/modbus_rtu_over_tcp.py", "modbus_tk/utils.py", "modbus_tk/hooks.py",
    "modbus_tk/simulator.py", "modbus_tk/simulator_rpc_client.py")
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A slave's read replies carry exactly the stored values",
     "For every memory layout, every stored content and every legal read request (1..2000 coils or discrete inputs, 1..125 holding or input registers, wholly inside one block), the slave's reply carries exactly the values currently stored at the requested addresses of the table the function code names, in address order and in the encoding the Modbus specification prescribes (bits packed LSB first and zero padded; registers big-endian, signed or unsigned as the slave was declared). Reading never changes a stored value.",
     ["inputs", "histories"], "every legal (function, address, quantity) over several layouts, every register value, every bit pattern of a byte",
     "The tests read eight coil patterns and seven register lists at fixed addresses; they never cross quantity x alignment x block position x value.",
     [M], [("Slave._read_digital / _read_registers", M), ("Slave._get_block_and_offset", M)],
     [("per-type block list", "blocks of each table, looked up by address", "Slave.__init__")], ["Slave.handle_request reply bytes"])

prop("C02", "Writes change exactly the addressed items and acknowledge them",
     "Every accepted write request (single or multiple coils, single or multiple registers, mask write, read/write multiple registers) leaves each addressed item with the value the Modbus specification prescribes, kept as an unsigned or signed 16-bit value as the slave was declared, and leaves every other item of every table, block and slave untouched. The reply is the acknowledgement the specification prescribes, and a combined read/write request performs its write before its read.",
     ["inputs", "histories"], "every legal write request at every alignment and quantity of small layouts, every register value, every mask triple of a boundary alphabet, in every state reached by short histories",
     "The tests write a dozen fixed ranges and look back only at the range written, never at the neighbours, other tables, signed slaves after mask writes, or function 23 at all.",
     [M], [("Slave._write_* / _mask_write_register / _read_write_multiple_registers", M)],
     [("ModbusBlock._data", "values of one block", "ModbusBlock")], ["Slave.handle_request", "Slave.get_values"])

prop("C03", "Rejected requests get the prescribed exception and change nothing",
     "A request with an unsupported function code, an illegal quantity, byte count or coil value, missing data bytes, or an address range that is not wholly inside one block of the table is answered with an exception reply (function code + 0x80) whose code names a rule it breaks: 1 illegal function, 2 illegal address, 3 illegal value (4 is allowed only for a truncated request). After any exception reply every stored value is what it was before the request: no request is ever half applied.",
     ["inputs", "fault_sequences"], "every function code 0..127, every quantity 0..65535, every byte count 0..255, every truncation of every request, every range against every block edge",
     "The tests send one bad quantity and six bad ranges per read function, and never a truncated or inconsistent write, so they cannot see half-applied writes.",
     [M], [("Slave.handle_request exception path", M), ("range and quantity checks in each handler", M)],
     [], ["Slave.handle_request", "Databank.handle_request", "Slave.get_values"])

prop("C04", "The block registry stays consistent over every add/remove history",
     "Adding a block succeeds if and only if its name is unused, its type is valid, its size is positive, its starting address is not negative and it shares no address with a block already registered for the same type; a refused operation raises the documented error and changes nothing. After any history of adding and removing blocks, each registered block is reachable by its name and by each of its addresses, holds its own values, and nothing removed is reachable any more.",
     ["histories", "inputs"], "every sequence of add/remove/remove-all operations up to a depth, over colliding names, types and address ranges in any order",
     "The tests add blocks in ascending order only; the overlap check depends on the insertion order of earlier blocks.",
     [M], [("Slave.add_block / remove_block / remove_all_blocks", M), ("ModbusBlock.is_in", M)],
     [("_blocks, _memory", "name map and per-type lists that must agree", "Slave")], ["Slave.add_block", "Slave.get_values", "Slave.handle_request"])

prop("C05", "Application access to blocks is exact, bounded and isolated",
     "Setting one value or a sequence of values at an address inside a block makes exactly these items read back, by the application and by remote masters alike, and changes nothing else; reading or writing outside of the block raises the out-of-block error and changes nothing. The values returned are a snapshot: later writes do not alter a result obtained earlier, and altering the sequence passed in does not alter the stored values.",
     ["histories", "inputs"], "every (address, size) around every block edge, every container kind, every short history of application and remote writes",
     "The tests check a handful of in-range and out-of-range addresses; aliasing, generators/ranges and mixed application/remote histories are not exercised.",
     [M], [("Slave.set_values / get_values", M), ("ModbusBlock.__setitem__/__getitem__", M)], [], ["Slave.set_values", "Slave.get_values"])

prop("C06", "Requests reach exactly the addressed slave; broadcasts reach all",
     "After any history of adding and removing slaves (ids 1..255; duplicates, unknown and invalid ids are refused with an error and without effect), a request is executed by the slave it is addressed to and by no other, and one for an absent slave has no effect and no reply. A broadcast write (id 0) is executed by every slave and is never replied to, whatever it contains, even when it is malformed or one slave cannot execute it; broadcast reads have no effect.",
     ["histories", "inputs"], "every add/remove/request history up to a depth over colliding ids, all 256 ids, over TCP and RTU framing",
     "The tests address two fixed slaves; broadcasts are only attempted by functional tests that fail at this commit.",
     [M], [("Databank.add_slave/remove_slave/handle_request", M), ("Slave.handle_request broadcast branch", M)],
     [("Databank._slaves", "slaves by id", M)], ["Databank.handle_request", "Server.add_slave"])

prop("C07", "A TCP server answers each request once, in order, however it arrives",
     "For every set of client connections and every way the request bytes are split into segments, pipelined, or interleaved between connections, the server sends on each connection exactly one reply per request, in request order, each a complete and well-formed frame with the transaction id, protocol id and unit id of its request, a correct length field and the reply the data model prescribes. No reply or effect depends on the segmentation.",
     ["schedules", "inputs"], "all segmentations of short request streams up to a bound, all interleavings of two connections' segments, short sends included",
     "The functional tests only use one master that writes each request in one segment on loopback and waits for the reply.",
     [T, M], [("TcpServer._do_run receive loop", T), ("TcpQuery.parse_request/build_response", T)],
     [("TcpServer._sockets", "connections polled", T)], ["bytes on each client connection"])

prop("C08", "No client can stop or disturb a TCP server",
     "Whatever one client sends (garbage, truncated or inconsistent frames, undersized or oversized lengths) and whenever it disconnects, resets, stalls or stops reading, and whichever single socket operation fails at whatever moment (accepting a connection included), the server keeps accepting connections and keeps answering every other client correctly. The faulty client never receives bytes that are not a well-formed reply frame to one of its requests, and a connection the server gave up on is closed.",
     ["fault_sequences", "inputs"], "every truncation point, header corruption and socket error at every operation index, with a healthy client before, during and after",
     "The only garbage test sends str instead of bytes and fails; no test injects a socket error or a mid-frame disconnection.",
     [T, M], [("TcpServer._do_run error handling", T), ("Databank.handle_request failure path", M)], [], ["healthy client's replies", "faulty client's received bytes"])

prop("C09", "A TCP master returns data only from the response to its own request",
     "A TCP master's call returns values only if it received a complete frame that carries the transaction id, protocol id and unit id of the call's own request, a correct length field, the function code of the request and a byte count matching its data; the values are then exactly those of the frame, however its bytes were segmented. Stale, duplicated, truncated, oversized, corrupted or foreign responses make the call raise, and an exception response raises the Modbus error with its exception code.",
     ["inputs", "fault_sequences", "histories"], "every single-field corruption, truncation and segmentation of every kind of response; stale and late responses over two-call histories",
     "Unit tests corrupt each header field once; nothing checks function codes, byte counts, segmentation, or responses that arrive late.",
     [T, M], [("TcpQuery.parse_response / TcpMbap.check_response", T), ("TcpMaster._recv", T), ("Master.execute response analysis", M)], [], ["Master.execute result or exception"])

prop("C10", "Master calls always end and the master recovers from any fault",
     "Whatever the peer does (refuses, stays silent, stops in mid-response, disconnects, resets, answers late or answers garbage), every call of a TCP, RTU or RTU-over-TCP master returns or raises, within two timeouts of its start or of the last byte that arrived. Once the peer behaves again, at most one further call may fail before calls on the same master object return correct data, without the caller reopening anything.",
     ["fault_sequences", "histories"], "every fault at every byte/operation of a call, pairs of faults, followed by healthy calls, in virtual time",
     "No test disconnects or silences a peer while a call is in progress; timeouts cannot be explored in real time.",
     [T, R, RT, U], [("TcpMaster._send reconnect", T), ("flush_socket", U), ("RtuOverTcpMaster._recv", RT), ("RtuMaster._recv", R)], [], ["Master.execute outcome and virtual time"])

prop("C11", "RTU frames are accepted only with the right CRC and address",
     "The CRC computed for any byte string is the Modbus CRC-16 (polynomial 0xA001, initial value 0xFFFF, low byte first on the wire), every request and response built carries it, and a frame in which up to two bits, or any burst of up to 16 bits that follow each other on the line, were altered is never accepted. A slave never acts on or answers a frame that is too short, has a wrong CRC or carries the address of a slave it does not own, and a master never returns data from such a frame.",
     ["inputs", "fault_sequences"], "all byte strings of length up to two, all frame lengths, all single/double bit errors and all bursts up to 16 bits of a set of frames",
     "The tests compute the CRC of six strings and corrupt one frame by adding one to its CRC.",
     [U, R], [("calculate_crc", U), ("RtuQuery.parse_request/parse_response/build_*", R)], [], ["RtuQuery", "RtuServer/RtuMaster over a simulated line"])

prop("C12", "An RTU server's behaviour does not depend on how the line delivers bytes",
     "For every way the bytes of a request frame reach the serial port without a gap longer than the inter-frame timeout, the RTU server executes the request exactly once and writes exactly one reply frame; frames separated by a silence are handled one by one. A reply is not sent when bytes of a newer request are already waiting, and a serial error at any operation never ends the server nor affects requests that arrive afterwards.",
     ["schedules", "fault_sequences"], "all chunkings of request frames, all positions of a serial error, all relative arrivals of a second request, in virtual time",
     "The RTU functional tests need two cabled ports and are not run; no test drives the RTU server loop.",
     [R], [("RtuServer._do_run", R)], [], ["bytes written to the serial port", "slave values"])

prop("C13", "An RTU master returns the slave's reply however the line delivers it",
     "For every supported function and every chunking of the reply (with or without local echo, with or without software timeout), the RTU master's call returns exactly the slave's values, or raises the Modbus error when the slave answers an exception. Bytes left over from an earlier exchange are discarded before a request is sent, and noise, truncation or a reply from another slave makes the call raise rather than return wrong data.",
     ["schedules", "inputs", "fault_sequences"], "all chunkings and truncations of replies, stale input, echo, exception replies, wrong-slave replies",
     "No RTU master test runs here; the expected-length logic is only exercised on real serial ports.",
     [R, M], [("RtuMaster._recv / _send", R), ("expected_length computation", M)], [], ["RtuMaster.execute"])

prop("C14", "RTU over TCP gives the same results as RTU on a serial line",
     "For every supported function and every segmentation of the reply, an RTU-over-TCP master returns the same values and raises the same Modbus errors (exception replies included) as an RTU master talking to the same slave, and never returns data from a frame with a wrong CRC, wrong address or missing bytes. A disconnection at any byte makes the call raise promptly instead of hanging.",
     ["schedules", "inputs", "fault_sequences"], "all functions x segmentations x truncation points x exception replies",
     "No test uses RTU over TCP at all.",
     [RT, T, M], [("RtuOverTcpMaster._recv", RT)], [], ["RtuOverTcpMaster.execute"])

prop("C15", "Master calls put the specified request on the wire and decode the reply",
     "For every supported function code and every legal argument (addresses, quantities, negative and boundary values, masks, data formats, file records, raw PDUs), a master's call sends exactly the PDU the Modbus specification prescribes for it, and returns exactly the values carried by a conforming reply, decoded with the caller's data format when one is given, and a call whose reply has a known length returns when the reply is complete instead of waiting for the timeout. Illegal arguments (unknown function, value, quantity or slave id that cannot be encoded) raise without anything being sent.",
     ["inputs"], "every function x boundary arguments x reply values, against an independent encoder/decoder",
     "The tests cover five functions through the library's own slave, so an error made on both sides cancels out; functions 7, 8, 20, 22, 23, 43 and raw are not covered.",
     [M], [("Master.execute", M)], [], ["bytes sent by the master", "value returned"])

prop("C16", "Concurrent calls on masters never mix up requests or responses",
     "When several threads call one master, or several masters, at the same time, each call returns exactly the data (or error) of its own request, requests and responses are never interleaved on a connection, and every call ends whether the others succeed or raise. This holds for every interleaving of the threads.",
     ["schedules"], "all interleavings of 2-3 calling threads up to a preemption bound at shared-access granularity",
     "The only multi-thread master tests are commented out or fail at this commit, and would sample a few schedules.",
     [M, U, T], [("threadsafe_function around Master.execute", U), ("TcpQuery transaction ids", T)],
     [("call lock", "serialises calls", U)], ["Master.execute results per thread"])

prop("C17", "Requests and application accesses on a slave are atomic",
     "Concurrent requests handled by a slave and concurrent application calls on it (setting and getting values, adding and removing blocks) behave as if they were executed one after the other in some order consistent with real time: no torn multi-item read or write, no lost update, no half-registered block, no internal error. This holds for every interleaving of the threads.",
     ["schedules"], "all interleavings of 2-3 threads with 1-2 operations each up to a preemption bound, checked for linearizability",
     "One sleep-based test samples a single schedule of one writer and one reader.",
     [M], [("Slave data lock", M)], [("_data_lock", "guards blocks and values", "Slave")], ["results of Slave.handle_request/set_values/get_values/add_block/remove_block"])

prop("C18", "Slaves can be added and removed while requests are being handled",
     "While requests, unicast or broadcast, are being handled by one thread, other threads may add, remove and look up slaves: each operation takes effect as a whole, a request or broadcast is executed by every slave registered throughout, no internal error ever occurs, and of two simultaneous additions of one id exactly one succeeds. This holds for every interleaving of the threads.",
     ["schedules"], "all interleavings of 2-3 threads over one databank up to a preemption bound",
     "No test changes the databank while a request is handled.",
     [M], [("Databank lock", M), ("Databank.handle_request broadcast loop", M)], [], ["Databank.handle_request", "Databank.add_slave/remove_slave/get_slave"])

prop("C19", "Each TCP request carries a fresh transaction id",
     "The transaction ids put in TCP requests are 16-bit values, and no id is used again before 65536 requests have been built in the process, whichever masters or threads build them and however these threads are interleaved; the sequence rolls over without an error.",
     ["schedules", "histories"], "the complete 65536-cycle, and all interleavings of 2-3 building threads up to a preemption bound, at the roll-over too",
     "The thread test compares only the final counter in one schedule, far from the roll-over.",
     [T, U], [("TcpQuery transaction id counter", T)], [("last transaction id", "process-wide counter", T)], ["bytes 0..1 of built requests"])

prop("C20", "Servers start, stop and restart cleanly in every schedule",
     "Starting a TCP, RTU or composite server makes it serve, and stopping it always returns in bounded time without an error, after which its thread has ended and its sockets or serial port are closed; stopping a server that is not running is harmless, and a stopped server can be started again and serves again, any number of times. This holds for every interleaving of the server thread and the controlling thread, and also when start-up fails (port in use) and is retried.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of start/stop/restart with the server loop up to a preemption bound; all start/stop histories up to a depth",
     "Functional tests start and stop once per test in one lucky schedule; restart tests are commented out.",
     [M, T, R, S], [("Server.start/stop/_run_server/_make_thread", M), ("RtuServer.stop", R), ("TcpServer._do_init/_do_exit", T)],
     [("_thread, _go", "server thread and its run flag", "Server")], ["Server.start/stop outcome", "service after restart", "open sockets"])

prop("C21", "Hooks are called as documented, in order, and can override",
     "Installed functions are called at their documented points with the documented arguments, in installation order, until one returns a value; where the documentation says so that value replaces the request or response and otherwise the exchange is unaffected. Uninstalling removes exactly the named function, or all of them if none is named, and hooks installed on one name never run for another. Functions installed and uninstalled by several threads at the same time are all installed or uninstalled as if one thread had done it.",
     ["histories", "inputs", "schedules"], "every interleaving of small programs of 2 and 3 threads on the registry; every install/uninstall/call history up to a depth; every hook point of every exchange with and without an override",
     "One test counts the calls of a single hook.",
     [H, M, T, R, RT], [("install_hook/uninstall_hook/call_hooks", H)], [("_HOOKS", "functions by name", H)], ["hook functions called", "bytes exchanged"])

prop("C22", "Hook functions may use the library without deadlocking",
     "A hook function may call the public API (read or set values, install or uninstall hooks, use masters and servers other than the one calling it) and may block for a while, and whatever the interleaving no thread is ever deadlocked, and a thread that works with other masters, servers and slaves is not held up by it. A hook function that raises affects only the exchange it was called for; a Modbus error raised by a slave's request hook is answered as that exception.",
     ["schedules", "fault_sequences"], "all interleavings of a thread running a hook and a thread using the same slave, up to a preemption bound; every hook point raising",
     "No test runs a hook concurrently with anything.",
     [H, M, T, R], [("hook lock", H), ("slave data lock", M)], [], ["progress of both threads"])

prop("C23", "Each simulator command gets exactly one answer and the API's effect",
     "Every command line given to the simulator, however malformed, produces exactly one answer and never ends the simulator (except quit); a well-formed command has exactly the effect of the corresponding API call and reports the values it set or read, and a failing one reports an error and changes nothing.",
     ["histories", "inputs"], "every command x argument-count x argument-kind line, in every state reached by short command histories, against a reference model",
     "No test uses the simulator.",
     [S], [("Simulator._handle and the _do_* commands", S)], [], ["answers on the output queue", "server databank"])

prop("C24", "Simulator users each get the answer to their own command",
     "Commands issued through the RPC interface and the console at the same time are each answered to the user who issued them, with the answer to that command, in every interleaving and also after a user gave up waiting or disconnected; the RPC client returns the value reported by the server, raises on an error answer, and neither a malformed nor an aborted RPC request disturbs the simulator.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings of two users and the command loop up to a bound; disconnection and timeout at every step; every client method",
     "No test uses the RPC interface.",
     [S, RPC], [("INPUT_QUEUE/OUTPUT_QUEUE pairing", S), ("RpcHandler.handle", S), ("SimulatorRpcClient._rpc_call", RPC)], [], ["RPC answers", "console answers"])

prop("C25", "Servers of a composite server share one set of slaves",
     "Slaves and blocks added through a composite server, before or after it is started, are served identically by each of its TCP and RTU servers, a write received by one is seen through the others, and starting or stopping the composite server starts or stops each of them.",
     ["histories", "schedules"], "every short history of add/remove/write/read through each member, start/stop histories, simultaneous writes through both members",
     "No test builds a composite server.",
     [S, M], [("CompositeServer", S)], [], ["replies of each member server"])

prop("C26", "The pymodbus-style client returns what the device holds",
     "Every read method of the pymodbus-compatible client returns the list of the values the addressed registers or bits hold, every write method makes the device hold the value, Modbus errors and connection failures raise, and open, is_open and close report the actual state of the connection.",
     ["inputs", "histories"], "every method x boundary addresses, counts and values, in short open/use/close histories",
     "No test uses this client.",
     ["modbus_tk/pymodbusclient.py"], [("PyModbusClientTCP", "modbus_tk/pymodbusclient.py")], [], ["return values", "device values"])

prop("C27", "A master can be opened, closed and reused in any order",
     "In every history of opening, closing, calling and losing the connection, a TCP, RTU or RTU-over-TCP master opens the connection when it is needed, opens it only once, really closes it on close, leaves no socket open behind it when it reconnects or closes, and works again after being reopened; opening an open master or closing a closed one has no effect, and a failed open leaves the master closed and usable later.",
     ["histories", "fault_sequences"], "every history up to a depth over open/close/call/peer loss/refused connection",
     "Reopening tests are commented out for TCP and not run for RTU.",
     [M, T, R], [("Master.open/close", M), ("TcpMaster._do_open/_do_close", T), ("RtuMaster._do_open/_do_close", R)], [("_is_opened", "connection state", "Master")], ["connections seen by the peer", "calls' results"])

prop("C28", "Background workers run init, loop and exit exactly as specified",
     "A worker thread runs its init function once, then its main function repeatedly until stopped, then its exit function exactly once, also when init or main raises; no round of main begins after stop was called, and stopping it returns only after the exit function has finished, stopping twice or before starting is harmless, in every interleaving of the controlling and worker threads.",
     ["schedules", "fault_sequences"], "all interleavings of start/stop with the loop up to a preemption bound, with each function raising or not",
     "No test uses the worker thread.",
     [U], [("WorkerThread", U)], [], ["call log of the three functions"])

prop("C29", "Verbose logging never changes what is exchanged",
     "Turning verbose logging on or off on masters and servers, with any of the library's log handlers installed, changes neither the bytes sent nor the results, errors and stored values of any exchange, whatever it contains (empty replies, broadcasts, malformed requests included).",
     ["inputs", "configurations"], "every kind of exchange x verbosity x logger kind, compared pairwise",
     "Verbose mode is set in two tests that are skipped or fail.",
     [M, U], [("get_log_buffer", U), ("set_verbose", M), ("create_logger handlers", U)], [], ["bytes and results with and without verbosity"])

prop("C30", "RTU timing follows the baud rate",
     "For every baud rate the inter-character time is 11 bit times up to 19200 baud and 0.5 ms above, and RTU masters and servers configure their serial port with the documented multiples of it (1.5 between characters, 3.5 between frames, or the multipliers and base time given by the caller), which later changes of the timeout replace.",
     ["inputs", "configurations"], "every integer baud rate of a wide range, and all configurations of multipliers and base times of a small alphabet",
     "The test checks thirty baud rates to a few decimals and never looks at the serial port's settings.",
     [U, R], [("calculate_rtu_inter_char", U), ("RtuMaster/RtuServer constructors and set_timeout", R)], [], ["serial port timeout attributes"])

prop("C31", "The web HMI manages masters and requests consistently",
     "The web HMI keeps a persistent list of masters and requests, and each page executes the stored request on the stored master and shows its result or error.",
     ["histories"], "every history of pages visited",
     "No test exists.",
     ["hmi/master_webhmi.py"], [("bottle routes", "hmi/master_webhmi.py")])

prop("C32", "A simulator can be closed in every state and leaves nothing behind",
     "Simulator.close returns within a few seconds without an exception in every state (never started, server start failed, running, commands in progress, after quit, called twice), stops the servers, ends the console and RPC threads and releases their ports, and afterwards another simulator can be created, started and used in the same process without executing the commands given to the first one.",
     ["histories", "schedules"], "every way of life x way of closing, closing at every moment of start and quit in every interleaving within a preemption bound, followed by two more simulators",
     "No test uses the simulator.",
     [S], [("Simulator.close / start", S), ("RpcInterface.close", S), ("ConsoleInterface.close", S)], [], ["listening ports", "threads", "second simulator"])

prop("C33", "What is marked thread-safe runs one thread at a time and never stays locked",
     "A function decorated with threadsafe_function is run by one thread at a time, and a method decorated with threadsafe_method (the execute method of each master is one) by one thread at a time per object, except in calls made with threadsafe=False. A call may nest in another one of the same thread; it gets exactly the arguments of the caller without the threadsafe one, returns or raises exactly what the function does, and however it ends (also by KeyboardInterrupt) nothing stays locked. Calls of different functions or objects, and those with threadsafe=False, never wait for one another. This holds for every interleaving of the threads.",
     ["schedules", "inputs"], "all interleavings up to a preemption bound of two or three threads calling decorated functions, methods and masters whose bodies return, raise, last, nest and call one another",
     "No test uses the decorators from two threads, lets a decorated function raise, or passes threadsafe=False.",
     [U, M], [("threadsafe_function / threadsafe_method", U), ("Master.execute", M)], [("lock", "lock of a decorated function / of a master", U)], ["which threads are inside", "results and exceptions of the calls"])

prop("C34", "Verbose logs show exactly what was exchanged, and records are delivered once",
     "While it is verbose, a master logs each request it sends and each response it receives, and a server each request it receives and each response it sends, once, in that order and with exactly the bytes exchanged (before a transport's hooks replace what is sent); while it is not verbose it logs none. Every record is delivered once and in order to each handler installed by create_logger, in the format and from the level asked for: a line on the console, a UTF-8 datagram ended by CR LF to 127.0.0.1:1975; an undeliverable record does not affect the others, and an unknown kind of handler is refused and installs nothing.",
     ["inputs", "configurations", "fault_sequences"], "every kind and length of exchange x verbosity patterns x handlers x hooks; every level, format and kind of message; every delivery failing",
     "No test looks at what is logged.",
     [U, M], [("get_log_buffer", U), ("ConsoleHandler / LogitHandler / create_logger", U), ("Master.execute / Server._handle", M)], [], ["console lines", "datagrams"])

prop("C35", "Objects created separately do not influence each other",
     "Masters, servers, databanks, slaves and worker threads that were created separately share no state: whatever is done with one of them (configured, opened or started, used, written, emptied, hit by a silent or misbehaving peer, closed or stopped), and whenever, the bytes another one sends, the results, errors and durations of its calls, its settings, verbosity and stored values are what they would be without it. (Hooks, transaction ids and the logger are shared by design.)",
     ["histories", "configurations"], "every pair of kinds of objects x every sequence of one and two (thorough up to three) operations on one x every moment of the life of the other",
     "The tests use one master and one server at a time.",
     [M, T, R, RT, U, S], [("constructors and class attributes", M), ("TcpServer / TcpMaster", T), ("RtuServer / RtuMaster", R), ("CompositeServer", S), ("WorkerThread", U)], [], ["transcript of one object with and without the other"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
