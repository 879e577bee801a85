#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), level="exploration", technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=["src/" + f for f in files.split()], mechanism=mechanism, observe=observe, state=list(state), level=level,
                  technique=technique or "stateful property-based testing against a reference model, with shrinking; libFuzzer in the thorough tier",
                  note=note))


SIM = "The real classes run on simulated hardware (clock, pins, serial, EEPROM, I2C EEPROM, flash, CAN controller) under ASan and UBSan; one main-loop pass is one call of Controller::process()."

prop("C01", "Circular buffer is a bounded FIFO with correct metrics",
     "A circular buffer of any capacity returns what was put into it in the same order, and when it is full a further put drops the oldest entry only. "
     "Its size, free slots, full/empty state and its put, get, overflow and high-water-mark counters always agree with the operations performed so far.",
     "histories configurations", "every capacity 1..255 and every sequence of put, pop, peek and clear",
     "The unit tests use one or two capacities and a handful of operations; wrap-around, overflow in every position and byte-sized arithmetic at large capacities need long histories.",
     "CircularBuffer.h", [{"name": "put/pop index arithmetic", "where": "src/CircularBuffer.h"}], ["return values of put, pop, peek, size, free_slots, full and the counters"])

prop("C02", "Messages pass between services and CAN bus unaltered, once, in order",
     "Every message received in a standard data frame is given to every service exactly once, in order of arrival, with its length and data unchanged, and every message a service sends appears on the CAN bus exactly once, in order, as a standard frame with the node's CANID, the default priority and unchanged content. "
     "Extended frames and remote-transmission requests are never taken for messages.",
     "histories inputs", "any interleaving of received frames, sent messages (0-5 data bytes after the opcode and node number) and main-loop passes, with no more outstanding actions than the action queue holds",
     "Tests post one message at a time; interleaving of both directions, queue wrap-around and all lengths are never exercised together.",
     "Controller.cpp Controller.h CanService.cpp CircularBuffer.h", [{"name": "action queue", "where": "Controller::process"}, {"name": "frame to message conversion", "where": "CanService::checkIncomingCanFrame, CanService::sendMessage"}],
     ["frames on the CAN transport", "messages given to the first and the last service"])

prop("C03", "CANID self-enumeration finds the lowest free id and keeps it",
     "Whenever self-enumeration is triggered (another node uses this CANID on a message, ENUM for this node, the button, or leaving uninitialised mode) the node sends one remote-transmission request, collects the CANIDs that answer with empty frames for 100 ms, and then takes the lowest CANID from 1 up that nobody used and stores it; ENUM is answered with NNACK when done. "
     "Nothing else changes the CANID, and a remote request from another node is always answered with one empty frame carrying this node's CANID.",
     "histories schedules", "any sequence of triggers, answers from any set of CANIDs, other traffic, time steps (including wrap of the millisecond clock) and restarts",
     "Tests use a few hand-picked answer sets and one time line; the answer sets are subsets of 127 ids and timing around the 100 ms window matters.",
     "CanService.cpp Configuration.cpp", [{"name": "enumeration state and response bitmap", "where": "CanService::startCANenumeration, findFreeCanId, checkCANenumTimout"}],
     ["frames sent", "CANID in sent frames and after restart"])

prop("C04", "A CANID set by message is validated, used and kept",
     "A CANID message for this node with an id from 1 to 99 is acknowledged, and from then on, also after a restart, frames carry that id; any other id is refused with an error and changes nothing. "
     "CANID messages for other nodes change nothing.",
     "histories inputs", "every id 0..255, any sequence of requests and restarts",
     "Tests try a few ids and do not restart the node.",
     "CanService.cpp Configuration.cpp", [{"name": "handleSetCANID", "where": "src/CanService.cpp"}], ["identifier of sent frames", "responses", "storage"])

prop("C05", "Messages addressed to other nodes have no effect",
     "A message whose node number is not this node's number, of any opcode that addresses a single node, gets no response and changes no stored data, no mode, no flag and no later behaviour. "
     "(Exception: NNLRN for another node ends this node's learn mode.)",
     "histories inputs", "any history of operations with foreign-addressed messages of every addressed opcode, any length and data, mixed in anywhere",
     "Tests send at most one foreign message per opcode and only look at the immediate response.",
     "Service.cpp MinimumNodeService.cpp EventTeachingService.cpp NodeVariableService.cpp CanService.cpp",
     [{"name": "isThisNodeNumber", "where": "each service's message handlers"}], ["responses, storage and handler calls compared with the same history without the foreign messages"],
     technique="metamorphic property-based testing (same history with and without foreign messages)")

prop("C06", "No traffic can crash the node, corrupt its state or make it deaf",
     "Whatever frames arrive (any identifier, flags, length 0-8 and data, in any number and order), in any mode and with any configuration of services, node variables and events, the node never accesses memory or storage outside its own, never writes to storage outside the areas of its configuration layout, and only sends well-formed frames. "
     "Afterwards it still answers requests.",
     "inputs histories configurations", "arbitrary frame sequences and time steps on any mix of services including diagnostics and long messages, and configurations down to zero node variables and events",
     "The input space is all frame sequences; the tests only send well-formed messages of documented lengths.",
     "CanService.cpp MinimumNodeService.cpp MinimumNodeServiceWithDiagnostics.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp NodeVariableService.cpp LongMessageService.cpp Configuration.cpp",
     [{"name": "length and index checks", "where": "message handlers of all services"}], ["sanitizers", "storage writes", "frames sent", "final request and response"],
     technique="fuzzing with structured frame sequences under sanitizers and state invariants; libFuzzer in the thorough tier")

prop("C07", "Node variables behave as an array of bytes",
     "Reading a node variable returns the value last written to it, or its value before if none was written; writes to valid indices are acknowledged and change nothing else, and requests with an invalid index or too short a message are answered with the right error and change nothing. "
     "Index 0 of a read reports the number of variables and then each of them in order.",
     "histories inputs configurations", "any sequence of NVRD, NVSET and NVSETRD with every index, value and length, any number of node variables 0..255 (reading all at once up to 28; above that, see the known finding), with other traffic and restarts in between",
     "Tests write one variable once; interference between variables, boundary indices and persistence over a history are not covered.",
     "NodeVariableService.cpp Configuration.cpp", [{"name": "index checks and address computation", "where": "NodeVariableService, Configuration::readNV/writeNV"}], ["NVANS, WRACK, GRSP and CMDERR responses", "storage"])

prop("C08", "The event table reflects exactly the teaching operations",
     "After any sequence of learn, learn-by-index, unlearn and clear operations, the stored events, their indices, node and event numbers and taught event variables, as reported by all the read and count requests, are those of a table where each operation affects only the event it names: a known event is updated in place, a new one takes a free slot, and a full table refuses new events (teaching the first event variable a value that a stored event already has gives that stored event the new number). "
     "Each operation is answered with the specified acknowledgement or error, and a refused one changes nothing.",
     "histories inputs configurations", "any sequence of EVLRN, EVLRNI, EVULN, NNCLR, NERD, NENRD, REVAL, REQEV, RQEVN and NNEVN with any event, index, variable and message length, tables of 1..255 events and 0..12 variables, restarts in between",
     "Tests apply one or two operations to a small table; deletion and reuse of slots, duplicates, full tables and index errors interact over histories.",
     "EventTeachingService.cpp Configuration.cpp", [{"name": "event slots and hash table", "where": "Configuration::findExistingEvent, findEventSpace, writeEvent, updateEvHashEntry"}],
     ["responses to the read requests"], state=[{"name": "event table", "meaning": "records of NN, EN and EVs in storage", "where": "storage from EE_EVENTS_START"}])

prop("C09", "Event lookup always agrees with the stored events",
     "At any time, looking up an event finds it exactly if it is stored, at the index where it is stored, and the free-slot search, the event count and the per-index occupied state agree with the stored records. "
     "This holds for any events, also those whose hashes collide, for tables of up to 255 events, and after a restart.",
     "histories inputs configurations", "any sequence of storing, overwriting and clearing events at any index, with events chosen to collide in the hash, table sizes 1..255 and restarts",
     "Tests look up a few events in small tables; collisions, zero hash values and large tables are combinatorial.",
     "Configuration.cpp", [{"name": "RAM hash table mirrors storage", "where": "Configuration::makeHash, updateEvHashEntry, makeEvHashTable"}], ["return values of the lookup functions compared with a scan of the records"])

prop("C10", "Everything configured survives a restart on every storage type",
     "After power off and on, the node has the same mode, node number, CANID, node variables, events with their variables, and heartbeat setting as before, and answers every request in the same way. "
     "This holds for internal EEPROM, external I2C EEPROM, Arduino Due flash emulation and AVR flash storage.",
     "histories configurations crash_points", "any history of configuration operations, with restarts between any two of them, any layout, on each storage back end",
     "No test restarts a node on a real storage class; all use a mock.",
     "Configuration.cpp EepromInternalStorage.cpp EepromExternalStorage.cpp DueEepromEmulationStorage.cpp FlashStorage.cpp MinimumNodeService.cpp",
     [{"name": "write-through to storage", "where": "Configuration setters, writeNV, writeEvent, writeEventEV"}, {"name": "load on start", "where": "Configuration::begin, loadNVs, makeEvHashTable"}],
     ["full dump by messages before and after the restart"], technique="stateful property-based testing with restarts, before/after comparison through the protocol, four simulated storage devices")

prop("C11", "A power cut damages at most the item being written",
     "If power is lost at any storage write during an operation, then after restart the node works, and every node variable, event and setting other than the one being changed by that operation is unaltered.",
     "crash_points histories", "every storage write within randomly generated operation histories",
     "Tests never interrupt an operation.",
     "Configuration.cpp EventTeachingService.cpp NodeVariableService.cpp MinimumNodeService.cpp EepromInternalStorage.cpp EepromExternalStorage.cpp",
     [{"name": "order and extent of writes", "where": "Configuration::writeEvent, writeEventEV, writeNV, setModuleMode, setNodeNum"}], ["dump by messages after the restart, compared with before and after of the interrupted operation"],
     level="fault_enumeration", technique="generated histories, power cut injected at every storage write of the last operation, comparison of the state after restart")

prop("C12", "Factory reset returns the module to its initial state, whatever it held",
     "A reset to manufacturer's defaults releases the node number, and after the following restart there are no events, all node variables are 0, the node is uninitialised with node number 0 and CANID 0 with heartbeat off, and the reset is signalled to the application. "
     "A module with erased storage starts in the same state. This holds on every storage type and for every layout that fits the storage.",
     "histories configurations", "any history before the reset, any layout, each storage back end, also storage that was never written",
     "Tests reset a mock storage with little in it.",
     "Configuration.cpp MinimumNodeService.cpp EepromInternalStorage.cpp EepromExternalStorage.cpp DueEepromEmulationStorage.cpp FlashStorage.cpp",
     [{"name": "resetModule and Storage::reset", "where": "src/Configuration.cpp and storage classes"}], ["dump by messages and by the configuration's getters after the restart"])

prop("C13", "Mode changes follow the VLCB mode state machine",
     "The node is always in exactly one of uninitialised, setup and normal mode and only moves as specified: through setup with RQNN and SNN to normal, back to the previous mode when setup is cancelled or another node requests a number, and to uninitialised by request. "
     "In each mode exactly the requests allowed there are answered, with the right responses and node number, the indicated mode and the flags agree with it, and only completed changes survive a restart.",
     "histories", "any sequence of button actions, SNN, RQNN, QNN, RQNP, RQMN, MODE (all values, short messages), and restarts",
     "Tests walk single transitions from prepared states; the state machine is a property of all histories.",
     "MinimumNodeService.cpp Configuration.cpp Controller.cpp", [{"name": "instant and stored mode", "where": "MinimumNodeService::process, handleMessage, handleModeMessage"}],
     ["responses", "mode indications", "flags parameter", "mode after restart"])

prop("C14", "Events can only be taught in learn mode, which only this node's commands set",
     "Learn mode is switched on only by NNLRN or MODE learn-on for this node and off by NNULN or MODE learn-off for this node, NNLRN for another node, or a restart; the learn flag in the node's parameters always shows it. "
     "Outside learn mode no teaching or clearing message changes anything.",
     "histories inputs", "any sequence of learn-mode commands for this and other nodes and teaching messages, with restarts",
     "Tests set learn mode and teach at once; they do not follow the mode through histories.",
     "EventTeachingService.cpp Controller.cpp", [{"name": "learn flag", "where": "EventTeachingService::enableLearn, inhibitLearn"}], ["flags parameter", "event table", "responses"])

prop("C15", "The application is told of exactly the events it has been taught",
     "For every on or off event message on the bus, long or short, with any number of data bytes, the application's event handler is called exactly once with the index of the stored event and the unaltered message if the event is in the table, and not at all otherwise; short events match by event number only, stored with node number 0. "
     "Responses to event requests that carry the state as a long event count as such events; no other message calls the handler.",
     "histories inputs", "any event table and any sequence of messages of every opcode, interleaved with teaching and unlearning",
     "Tests send single events to a one-entry table.",
     "EventConsumerService.cpp Configuration.cpp", [{"name": "opcode dispatch and lookup", "where": "EventConsumerService::handleConsumedMessage"}], ["handler calls"])

prop("C16", "Produced events use the right opcode, event and data, and get created once",
     "Sending a produced event puts exactly one message on the bus: on or off as asked, with the data bytes given, with the node and event number of the stored event for that value, in short form with this node's number if its node number is stored as 0. "
     "If there is no such event, one is created in a free slot with this node's number, an unused event number, the value as its first variable and 0 in the others, and is used from then on; with a full table, or before the node has a number, nothing is created or sent. The configured number of default events is created when the node enters normal mode, those that exist already are not created again.",
     "histories inputs configurations", "any sequence of sendEvent calls of all forms, teaching, unlearning, renumbering and restarts, with any number of default events",
     "Tests send one or two events from a fresh table.",
     "EventProducerService.cpp Configuration.cpp", [{"name": "findOrCreateEventByEv, createDefaultEvent, sendEvent", "where": "src/EventProducerService.cpp"}], ["frames sent", "event table"])

prop("C17", "Event state requests reach the application and are answered correctly",
     "A request for the state of an event calls the application's request handler exactly once with the index of that stored event if it is one that this node produces, and not otherwise; without a handler it is ignored. "
     "The response function sends exactly one message with the response opcode for the requested state, form and number of data bytes, identifying that event.",
     "histories inputs", "any event table, requests in long and short form for any event, all response forms",
     "Tests check single requests and responses.",
     "EventProducerService.cpp", [{"name": "handleProdSvcMessage, sendEventResponse", "where": "src/EventProducerService.cpp"}], ["handler calls", "frames sent"])

prop("C18", "A node consumes its own events exactly if it is configured to",
     "With the consume-own-events service, an event the node sends calls its own event handler exactly as if it came from the bus, once, when the event is in its table; without that service it never does. "
     "The service does not change what is sent or what is received from other nodes.",
     "histories configurations", "any sequence of sent and received events and teaching, with and without the service, in any service order",
     "Tests send one event.",
     "ConsumeOwnEventsService.cpp ConsumeOwnEventsService.h EventConsumerService.cpp Controller.cpp", [{"name": "PF_COE flag", "where": "EventConsumerService::process, Controller::setParams"}], ["handler calls", "frames sent"])

prop("C19", "Node parameters and services are reported truthfully",
     "The parameters reported by every request form agree with the configuration given at build time (numbers of events, variables and node variables, versions, ids, name) and with the flags for the services present and the current mode. "
     "Service discovery reports exactly the services present, with their index, type and version, and invalid indices get the specified errors.",
     "configurations histories inputs", "any set and order of services, any configuration values, every index, mode changes in between",
     "Tests use a few fixed service sets.",
     "Parameters.cpp Controller.cpp MinimumNodeService.cpp", [{"name": "parameter block and service list", "where": "Parameters, Controller::setParams, MinimumNodeService::handleRequestServiceDefinitions"}], ["PARAMS, PARAN, NAME, PNN, SD, ESD responses"])

prop("C20", "Diagnostics report what actually happened",
     "The diagnostic counters (events consumed, produced and taught, node number changes, frames and errors of the CAN transport, uptime) equal the number of times those things happened since start, modulo 65536, and reading them changes nothing. "
     "Each diagnostic is reported under the right service index and number, and unknown services and diagnostics get the specified errors.",
     "histories inputs configurations", "any history of operations, any request, any set and order of services with and without diagnostics",
     "Tests read counters at their initial values or after one event.",
     "MinimumNodeServiceWithDiagnostics.cpp CanServiceWithDiagnostics.cpp EventConsumerServiceWithDiagnostics.cpp EventProducerServiceWithDiagnostics.cpp EventTeachingServiceWithDiagnostics.cpp EventConsumerService.cpp EventProducerService.cpp EventTeachingService.cpp",
     [{"name": "diag counters", "where": "the services' process functions"}], ["DGN and GRSP responses"])

prop("C21", "Heartbeats come every five seconds when and only when enabled",
     "In normal mode with heartbeat enabled the node sends a heartbeat every 5 seconds of its clock, also across the wrap of the clock, with its node number and a sequence number that goes up by one each time; in other modes or when disabled it sends none. "
     "The setting is changed only by MODE heartbeat on/off for this node and survives a restart.",
     "histories schedules", "any sequence of time steps, mode changes, heartbeat commands and restarts, from any start time",
     "Tests advance the clock once or twice from zero.",
     "MinimumNodeService.cpp Configuration.cpp", [{"name": "heartbeat()", "where": "src/MinimumNodeService.cpp"}], ["HEARTB messages and their times"])

prop("C22", "GridConnect encoding and decoding are exact inverses and reject bad input",
     "Every CAN frame (standard or extended, data or remote, 0-8 bytes) encodes to the GridConnect text prescribed for it and decodes back to the same frame. "
     "Text that is not a well-formed GridConnect message is refused, and no input of any content or length makes encoder or decoder access memory outside the buffers.",
     "inputs", "all frames; all character strings up to and over the maximum length",
     "Tests cover a few dozen strings.",
     "GridConnect.cpp GridConnect.h", [{"name": "encodeGridConnect, decodeGridConnect", "where": "src/GridConnect.cpp"}], ["encoded text", "decoded frame and return value"],
     technique="round-trip and differential property-based testing against an independent codec; mutation of valid messages; libFuzzer in the thorough tier")

prop("C23", "The serial CAN transport finds every frame in any byte stream",
     "Whatever bytes arrive on a serial line, in whatever pieces and whatever happens on other serial lines, every well-formed GridConnect frame that follows a start character is delivered exactly once, in order and unaltered, garbage between or before frames is never delivered as a frame and costs at most the message it damages, and every frame sent is written to the line as one well-formed GridConnect message. "
     "Its counters agree with that.",
     "inputs schedules", "any stream of valid, damaged and truncated frames and garbage, split into any pieces, any poll pattern",
     "Tests feed complete messages only.",
     "SerialGC.cpp GridConnect.cpp", [{"name": "receive buffer and resynchronisation", "where": "SerialGC::available"}], ["frames delivered", "bytes written", "counters"])

prop("C24", "Long messages arrive complete and unaltered",
     "A long message of any length from 1 to 65535 bytes and any content, sent on a stream that the receiver subscribes to, is delivered by the receiver byte for byte: in pieces of the size of its buffer with a final completion status for the simple service. "
     "The fragments are well-formed, in sequence, spaced by the configured delay, and a second message is refused while one is being sent.",
     "inputs configurations schedules", "any content and length, receive buffer size, stream ids, delay and other traffic in between",
     "Tests send two short strings.",
     "LongMessageService.cpp LongMessageService.h", [{"name": "fragmentation and reassembly", "where": "LongMessageService::process, processReceivedMessageFragment"}], ["bytes and statuses given to the handler", "frames on the bus"],
     technique="round-trip property-based testing, sender connected to receiver, with an independent fragment checker")

prop("C25", "Concurrent long messages do not disturb each other",
     "With the extended service, messages on different streams may be sent and received at the same time, up to the number of contexts, and each arrives complete and unaltered exactly once, with or without checksum; further messages are refused without affecting those in progress. "
     "The sent data is that at the time of the call, and a checksum mismatch is reported instead of completion. However many messages are sent, no more memory is needed than for those in progress, and when there is none a message is refused without affecting the others.",
     "inputs histories schedules", "any number of concurrent messages with any content and length, any interleaving of their fragments, any number of contexts",
     "Tests run at most two short messages.",
     "LongMessageService.cpp LongMessageService.h", [{"name": "send and receive contexts", "where": "LongMessageServiceEx"}], ["bytes and statuses given to the handler", "frames on the bus"],
     technique="stateful round-trip property-based testing, random interleavings, independent CRC")

prop("C26", "Damaged long messages are never reported as complete",
     "When fragments of long messages are lost, repeated, reordered, or cut off, or messages of other streams come in between, the receiver reports a message as complete only if it received its header and then every fragment up to the announced length in sequence (with a checksum, where used, that matches), reports the sequence or timeout error once otherwise, and receives the next undamaged message that begins after the error was reported. "
     "Buffers are never overrun.",
     "fault_sequences histories inputs", "any combination of drops, duplicates, swaps, truncations, foreign streams and pauses applied to any sequence of messages of up to 520 fragments, both services",
     "Tests drop one fragment.",
     "LongMessageService.cpp", [{"name": "sequence number and timeout checks", "where": "processReceivedMessageFragment, process"}], ["bytes and statuses given to the handler"],
     technique="fault-injecting property-based testing with a model of the receiver's guarantees")

prop("C27", "Every storage type is a faithful byte array",
     "On every storage type, a read of one or more bytes returns what was last written to those addresses, writes of any length at any address within the device change exactly those addresses, and reset leaves the identity area to its caller and erases the rest it is responsible for. "
     "The device's page size, buffer sizes and erase blocks never show.",
     "histories inputs configurations", "any sequence of byte and block reads and writes within the device's size, and restarts, on internal EEPROM, I2C EEPROM, Due flash emulation and AVR flash",
     "No test runs the storage classes.",
     "EepromInternalStorage.cpp EepromExternalStorage.cpp DueEepromEmulationStorage.cpp FlashStorage.cpp", [{"name": "page handling", "where": "flash_write_bytes, EepromExternalStorage::writeBytes"}], ["values read", "content of the simulated device"],
     technique="stateful differential property-based testing of each storage class against a byte array, on simulated devices")

prop("C28", "Button and LEDs follow the documented user interface",
     "The LEDs always show the current mode (normal: yellow on, uninitialised: green on, setup: yellow blinking; green flickers briefly for bus activity), and a button press triggers exactly the one action for its duration: enumeration when short, renegotiation at 1-2 seconds, mode change when held over 4 seconds, none in between. "
     "This holds for any press times, also across the wrap of the clock.",
     "schedules histories", "any sequence of presses and releases of any duration, mode changes and bus activity, with any polling interval",
     "Tests use a mock user interface.",
     "LEDUserInterface.cpp LED.cpp Switch.cpp", [{"name": "press duration and LED state", "where": "LEDUserInterface::checkRequestedAction, LED::run, Switch::run"}], ["pin levels over time", "actions seen by other services"])

prop("C29", "The MCP2515 transport moves frames unaltered and counts them",
     "Frames passed to the MCP2515 transport appear on the bus, and frames from the bus at the node, unaltered and in order, with identifier, extended and remote flags, length and data preserved, in interrupt and in polling mode, also after a reset of the transport, which keeps the settings. "
     "Failure to queue a frame is reported and the counters equal the frames actually sent and received since the start or reset.",
     "histories inputs configurations", "any sequence of frames in both directions, full buffers, resets, both modes",
     "No test runs the class; the controller chip is only available as a driver library.",
     "CAN2515.cpp CAN2515.h", [{"name": "frame conversion", "where": "CAN2515::getNextCanFrame, sendCanFrame"}], ["frames at the simulated driver", "counters"],
     note="The ACAN2515 driver library is not part of the repository; a simulated driver with the same interface stands in for it.")

prop("C30", "Serial commands show the node's state and change nothing by surprise",
     "The serial console's display commands print the node's actual mode, CANID, node number, node variables, events and counters and change nothing; only the setup command changes the mode and only the reset commands reset. "
     "Any other input is reported as unknown and ignored, and no input or configuration makes the console overrun its buffers.",
     "inputs histories configurations", "any input bytes at any time, any configuration and stored content",
     "No test runs the class.",
     "SerialUserInterface.cpp", [{"name": "command dispatch and formatting", "where": "SerialUserInterface::processSerialInput"}], ["text printed, parsed", "storage and messages unchanged"])

prop("C31", "Modules on one bus get distinct CANIDs and hear each other's events",
     "When several modules and a configuration tool share a CAN bus: after each module has been heard since the last disturbance of the CANIDs, these differ from each other and from the tool's, and stay so. "
     "Every event that a module or the tool sends reaches the event handlers of exactly those modules that have been taught it, once and in the order on the bus, and every long message reaches the subscribed modules, also while others are sent. "
     "A question or command for one module is answered and obeyed by that one only, at most one module at a time is in setup mode and takes a new node number, teaching changes only the module last put in learn mode, and after every action the bus goes quiet.",
     "histories schedules configurations", "any 2 to 5 modules with any event tables and CANIDs, any history of events, long messages, teaching, questions, button presses, node numbers, restarts and enumerations, modules running at any relative speed",
     "The unit tests run a single node with a mock transport; clashes, simultaneous enumerations, setup on two modules and chains of events need several nodes.",
     "CanService.cpp Controller.cpp MinimumNodeService.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp LongMessageService.cpp",
     [{"name": "CANID clash detection and enumeration", "where": "CanService::checkIncomingCanFrame"}, {"name": "RQNN and NNLRN from and for others end setup and learn mode", "where": "MinimumNodeService::handleMessage, EventTeachingService::handleLearn"}],
     ["frames on the bus", "calls of the event and long message handlers", "each module's storage"])

prop("C32", "The example sketches work as documented, from switch to lamp",
     "A module with one of the example sketches does what its documentation says after any history: a switch that changes and keeps its level for the debounce time gives exactly the event that its node variable and the event table call for (a default event if there is none), bounces give nothing, a lamp shows what the event variables of the last matching event say (off, on, flashing at the documented rate), also for the module's own events and for responses, a request is answered with the state of the switch that produces the event and not at all if none does. "
     "Setup with the button gives the documented parameters, name and default events, the mode LEDs follow the mode, settings survive power off, holding the button at the start resets the module, serial commands print and change nothing else, long messages are printed and sent whole.",
     "histories inputs", "any history of switch changes and bounces, events, requests, teaching, node variables, setup, power off, resets, serial commands and long messages; any of the five sketches; any state of the EEPROM before and of the clock",
     "No unit test compiles a sketch; what the sketch does depends on switches, timers, EEPROM and all services together.",
     "Controller.cpp EventProducerService.cpp EventConsumerService.cpp EventTeachingService.cpp ConsumeOwnEventsService.cpp MinimumNodeService.cpp LEDUserInterface.cpp SerialUserInterface.cpp Switch.cpp LED.cpp CAN2515.cpp SerialGC.cpp LongMessageService.cpp",
     [{"name": "setup, loop and event handlers of the sketches", "where": "examples/*/*.ino"}, {"name": "documented behaviour", "where": "docs/Examples.md, docs/VLCB4in4out_README.md"}],
     ["frames on the CAN chip or serial port", "levels of the lamp and LED pins", "text on the serial port"])

prop("C33", "Questions, diagnostics and idle time change nothing",
     "For every history of commands, teaching, events, setup, enumeration, button presses, time and restarts: putting questions to the module in between (for its number, parameters, name, services, node variables, events, event variables, event counts, event states or diagnostics, valid or not), remote requests of other modules, responses between other modules and idle passes of the main loop change nothing else. "
     "Every message that the module sends otherwise, the time of every call of the event handler, the stored configuration, events and counters, restarts, and its mode, numbers and flags are the same as without; and the services with diagnostics behave as those without, apart from the diagnostics.",
     "histories inputs", "any history of a module, any questions at any points of it (also during setup, learning and enumeration), any number of idle passes, either variant of the services",
     "Unit tests look at the answer to one question of a fresh module; that asking leaves no trace in whatever is going on must hold for every question at every point of every history.",
     "MinimumNodeService.cpp MinimumNodeServiceWithDiagnostics.cpp EventTeachingService.cpp NodeVariableService.cpp EventProducerService.cpp EventConsumerService.cpp CanService.cpp Controller.cpp Configuration.cpp",
     [{"name": "answers to requests", "where": "src/*Service.cpp handleMessage()"}, {"name": "diagnostics", "where": "src/*WithDiagnostics.cpp"}],
     ["messages sent on the transport", "calls of the event handler", "bytes of the storage"])


with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"],
                                                                      observe_at=p["observe"], hook_needed=None))) + "\n")

checks, na = [], []
for p in P:
    if (V / "props" / (p["id"] + ".cpp")).exists():
        checks.append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="env VERIF_TIER=thorough ./check " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"],
                           level_note=(p["note"] + " " if p["note"] else "") + "Generated-input search: shows presence of violations, not absence. " + SIM + " The oracle is an independent model in props/%s.cpp." % p["id"]))
    else:
        na.append(dict(property=p["id"], reason="no check has been built for it"))
m = dict(version=1, setup_cmd="./check --build", checks=checks, not_applicable=na,
         notes="./check ID --replay FILE runs one saved failing case. No hooks in /repo are needed: only public interfaces are used.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
