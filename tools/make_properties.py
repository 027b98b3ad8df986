"""Writes /verif/properties.jsonl.  The list below is the hand-written source."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert title and statement.count(". ") <= 2, id
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("C01", "Wire data types round-trip exactly, keep the remainder, reject bad input",
 "For every wire data type the library offers (integers of every width, enumerations, bitmaps, floats, octet and character strings, lists, addresses, keys, ZCL data types), encoding any representable value and decoding the bytes followed by arbitrary further bytes gives back an equal value of that type and exactly those further bytes. The byte image is the one the Zigbee specification prescribes (width, byte order, length prefix, IEEE-754 for floats), and the text forms of addresses, keys, enumerations and channel masks parse back to the same value. Truncated input and out-of-range values are rejected with a value error, never silently wrapped, truncated or padded.",
 ["inputs"], "every type exported by the type library, every representable value incl. boundaries, every suffix, every truncation point",
 "Tests encode a handful of constants per type; the value space (and the product with truncation points and suffixes) is unbounded.",
 ["zigpy/types/basic.py", "zigpy/types/named.py", "zigpy/zcl/foundation.py"],
 [("FixedIntType/serialize/deserialize", "zigpy/types/basic.py"), ("BaseFloat._convert_format", "zigpy/types/basic.py"), ("LVBytes, CharacterString, List, LVList, FixedList", "zigpy/types/basic.py"), ("EUI64, KeyData, Channels, BroadcastAddress", "zigpy/types/named.py"), ("DataType table, TypeValue, Array", "zigpy/zcl/foundation.py")],
 observe=["serialize()/deserialize() of the type"])

prop("C02", "Structures encode field by field as declared, with bit fields and optionals",
 "For every structure definition (byte-aligned fields, packed bit fields, optional fields, conditionally required fields, nested structures, integer-backed structures) and every assignment of values, encoding yields the fields in declaration order with bit fields packed least-significant first, and decoding that encoding yields an equal structure and an empty remainder. Missing required values, bit fields not ending on a byte boundary and truncated data are rejected. Copying, freezing, replacing and the dictionary form preserve every field, equality and hash.",
 ["programs", "inputs"], "all generated structure definitions and values, against an independent bit-level reference encoder",
 "Tests use about twenty hand-written structures; the interaction of alignment, optionality and conditions is combinatorial.",
 ["zigpy/types/struct.py", "zigpy/types/basic.py"],
 [("Struct.serialize/deserialize", "zigpy/types/struct.py"), ("Bits.from_bitfields", "zigpy/types/basic.py"), ("FixedIntType.from_bits", "zigpy/types/basic.py")],
 observe=["Struct.serialize", "Struct.deserialize", "Struct.as_dict/replace/freeze/matches"])

prop("C03", "Every ZCL command survives encoding and decoding with header and arguments",
 "Every general command and every registered cluster-specific command, in both directions, with or without a manufacturer code, when sent through a cluster produces a frame whose independent decoding gives the command, the direction its definition states, the frame type, transaction number, manufacturer code and exactly the given arguments; decoding that frame with the library on the receiving side gives the same header and equal arguments. Arguments given positionally or by name are equivalent (names that are options of the call itself are positional only), omitted trailing optional arguments are left out, and missing required or unknown arguments are rejected. Cluster definitions are self-consistent: lookups of attributes and commands by name, by id and by definition always agree.",
 ["inputs"], "every registered cluster, every command in it, every argument assignment",
 "Tests exercise a few dozen of several hundred commands, each with one argument tuple.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py", "zigpy/zcl/clusters/*.py"],
 [("Cluster._create_request / deserialize", "zigpy/zcl/__init__.py"), ("ZCLHeader, FrameControl", "zigpy/zcl/foundation.py"), ("ZCLCommandDef.with_compiled_schema", "zigpy/zcl/foundation.py")],
 observe=["packets handed to the radio", "Cluster.deserialize"])

prop("C04", "Every ZDO command survives encoding and decoding with its arguments",
 "Every ZDO request and response with any valid arguments, sent through a device or broadcast, becomes a payload of transaction number followed by the arguments in the order the specification fixes (for broadcasts, however the caller named or ordered them); decoding it yields the same header and equal arguments. Responses to failed requests that legally stop after the status decode with the missing arguments absent. Node, power and simple descriptors, neighbour, route and binding records keep every bit field through the round trip.",
 ["inputs"], "every ZDO command, every argument assignment, positional and keyword forms",
 "Tests decode fixed captures of a few responses; most commands are never encoded or decoded.",
 ["zigpy/zdo/types.py", "zigpy/zdo/__init__.py"],
 [("CLUSTERS schemas", "zigpy/zdo/types.py"), ("ZDO.deserialize/_serialize/request", "zigpy/zdo/__init__.py"), ("broadcast", "zigpy/zdo/__init__.py")],
 observe=["packets handed to the radio", "ZDO.deserialize"])

prop("C05", "Malformed or unexpected radio traffic is contained",
 "Handing the application any received packet, whatever its addresses, endpoints, profile, cluster and payload bytes, never raises into the radio driver and never alters persisted identity (addresses, endpoints, node descriptor, clusters) of any known device unless the packet is a well-formed message that announces such a change. A well-formed message handled afterwards is processed exactly as if the malformed ones had never arrived. No request in flight is completed by a packet that is not a reply from its device carrying its transaction number.",
 ["inputs", "histories"], "all byte strings as payloads (random, mutated from valid frames, truncated), all addressing combinations, in sequences",
 "Tests feed a few known-bad frames; arbitrary radio bytes are unbounded.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py"],
 [("ControllerApplication.packet_received", "zigpy/application.py"), ("Device.packet_received", "zigpy/device.py"), ("Cluster.handle_message", "zigpy/zcl/__init__.py"), ("ZDO.handle_message", "zigpy/zdo/__init__.py")],
 observe=["packet_received() return", "listener events", "device state"])

prop("C06", "Each request ends exactly once, with its own reply, an error or a timeout",
 "For any interleaving of concurrent requests to any devices with replies that arrive late, duplicated, reordered, for other transactions, before sending completes, or never, every request that expects a reply ends exactly once: with the first matching reply from its device and transaction (a ZDO request only with the response to its own command), with the delivery error, with cancellation, or with a timeout no later than its documented bound after it was sent. Replies that cannot be parsed or carry a failure status end the request they answer, with a parsing error respectively that status, and never another one. Afterwards no pending entry remains, so the transaction numbers are reusable and later requests work.",
 ["schedules", "fault_sequences"], "schedules of requests, replies, duplicates, delays, delivery failures and cancellations under a virtual clock",
 "Tests drive one or two requests in one fixed order; interleavings and timing are unbounded.",
 ["zigpy/device.py", "zigpy/datastructures.py", "zigpy/util.py", "zigpy/endpoint.py", "zigpy/zdo/__init__.py"],
 [("Device.request / packet_received", "zigpy/device.py"), ("Requests/Request context manager", "zigpy/util.py")],
 state=[("pending requests", "outstanding requests by transaction number", "zigpy/device.py")],
 observe=["result of Device.request / cluster commands", "packets handed to the radio"])

prop("C07", "Concurrency limits hold, priorities are honoured, and nobody waits forever",
 "At no time are more operations inside a dynamically bounded priority semaphore than its current limit allowed them to enter (counting lowered and raised limits), and free capacity is never left unused while someone waits. Among waiters the highest priority enters first, equal priorities in arrival order, whatever waiters are cancelled, at whatever moment, and however the limit is changed. Sends to one device and sends through the radio respect their configured limits with the same guarantees, and a rescheduled timeout fires once, at the time last asked for, unless cancelled.",
 ["schedules"], "sequences of acquire/release/cancel/resize operations at any scheduling point, against a reference queue model",
 "Tests cover a few hand-picked schedules; cancellation between wake-up and resumption needs schedule search.",
 ["zigpy/datastructures.py", "zigpy/device.py", "zigpy/application.py"],
 [("PriorityDynamicBoundedSemaphore", "zigpy/datastructures.py"), ("ReschedulableTimeout", "zigpy/datastructures.py"), ("_limit_concurrency", "zigpy/device.py, zigpy/application.py")],
 observe=["acquire order", "locked()/value/num_locked"])

prop("C08", "Exactly the repeats inside the window are suppressed as duplicates",
 "A received packet is ignored exactly when an identical one (same source, destination, endpoints, profile, cluster and payload, whatever its link quality or timestamp) was accepted less than the duplicate window ago; every other packet is processed once. The same holds for any debounced values with any mixture of windows: an entry stops suppressing once its own window has elapsed and not before, and memory of expired entries is released.",
 ["histories"], "sequences of packets/values and time steps under a virtual clock against a reference set of (value, expiry)",
 "Tests step a few values with a single window; mixtures of windows and orders are unbounded.",
 ["zigpy/datastructures.py", "zigpy/application.py", "zigpy/types/named.py"],
 [("Debouncer", "zigpy/datastructures.py"), ("packet_received duplicate filter", "zigpy/application.py"), ("ZigbeePacket equality", "zigpy/types/named.py")],
 observe=["Debouncer.filter result", "device events"])

prop("C09", "Everything learned about the network is the same after a restart",
 "After any history of joins, interviews, leaves, rejoins under a new address, attribute updates and unsupported attributes, group membership changes, topology scans, relay updates and backups, closing and reopening the application from its database gives the same interviewed devices with their endpoints, clusters, descriptors, attribute caches, unsupported attributes, neighbours, routes and relays, and the same groups and backups as were held in memory (attribute times may be stored up to 30 s late). Nothing removed reappears and nothing belonging to one device is attached to another.",
 ["histories"], "operation histories interleaved with restarts; the in-memory state before shutdown is the oracle for the state after",
 "Tests save and reload three or four fixed scenarios.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/schema_v13.sql", "zigpy/application.py"],
 [("PersistingListener event handlers", "zigpy/appdb.py"), ("PersistingListener.load", "zigpy/appdb.py"), ("foreign keys / unique indices", "zigpy/appdb_schemas/schema_v13.sql")],
 observe=["state of a new application loaded from the same database file"])

prop("C10", "A crash or failed write leaves the database consistent and loadable",
 "If the process dies between any two database operations, or any single database operation fails, the database file can afterwards be opened and loaded, and every recorded change is either wholly present or wholly absent: a group of rows belonging to one change is never half replaced. A failed operation neither stops later changes from being stored nor makes part of itself permanent.",
 ["crash_points", "fault_sequences"], "every statement boundary of generated histories as crash point, and every statement as failing statement",
 "Tests never interrupt the writer; the number of crash points grows with the history.",
 ["zigpy/appdb.py"],
 [("transactions in multi-statement handlers", "zigpy/appdb.py"), ("worker queue", "zigpy/appdb.py")],
 observe=["state loaded from a copy of the database files taken at the crash point"])

prop("C11", "Old databases upgrade without losing data, or stay exactly as they were",
 "A database written at any earlier schema version opens as the current version with every device, endpoint, cluster, descriptor, attribute, group, membership, neighbour and route it described and that is attached to an existing device. If the upgrade fails or is interrupted at any point the stored data and version remain as they were before and a later attempt succeeds. Nothing that a newer version stored, and nothing in a database whose version and tables contradict each other, is changed by an attempt to open it.",
 ["inputs", "crash_points"], "generated database contents at each historical schema version, and each statement of the migration as failure point",
 "Tests migrate a few fixed dumps and inject one failure.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/"],
 [("_run_migrations / _migrate_to_vN", "zigpy/appdb.py"), ("_migrate_tables", "zigpy/appdb.py")],
 observe=["loaded application", "database rows and user_version"])

prop("C12", "Network backups survive every serialisation format",
 "Any network backup converted to its stored dictionary form, through JSON text, and back is equal to the original in every field (addresses, keys, counters, children, key table, channel, update ids, metadata), up to the order of unordered tables. The open coordinator backup format keeps every field that the format has, in the byte order the format defines, and accepts what it produced. Backups in the formats of older versions still load.",
 ["inputs"], "all generated network states",
 "Tests use one or two backup constants that happen to be symmetric or default in many fields.",
 ["zigpy/backups.py", "zigpy/state.py"],
 [("NetworkBackup.as_dict/from_dict", "zigpy/backups.py"), ("open coordinator conversion", "zigpy/backups.py"), ("NodeInfo/NetworkInfo/Key as_dict/from_dict", "zigpy/state.py")],
 observe=["from_dict(as_dict(x))"])

prop("C13", "Backup history keeps the newest complete state and restores never reuse counters",
 "Whatever sequence of complete, incomplete, newer, older, compatible and incompatible backups is added, incomplete ones are never kept, an older compatible backup never supersedes or removes a newer one, a newer one supersedes exactly the compatible older ones, and backups of other networks are never removed. Restoring writes exactly the backed-up network to the radio with an outgoing frame counter advanced by the requested margin, so no counter value already used can be used again.",
 ["histories"], "sequences of backups added, created from radio state and restored, against a reference list model",
 "Tests add a handful of backups in fixed order.",
 ["zigpy/backups.py"],
 [("BackupManager.add_backup", "zigpy/backups.py"), ("NetworkBackup.supersedes/is_compatible_with/is_complete", "zigpy/backups.py"), ("BackupManager.restore_backup", "zigpy/backups.py")],
 observe=["BackupManager.backups", "write_network_info arguments"])

prop("C14", "The device registry follows joins, address changes, leaves and removals",
 "After any history of joins, announcements, address changes, leaves and removals in any order, the application knows exactly the devices that joined and were not removed, each once under its hardware address and reachable under its most recent network address, and no network address resolves to a device that no longer holds it. Listeners are told of each join, leave and removal once with the device concerned. The coordinator is never removed by traffic from other devices, and removing a device asks it (and, for an end device, every device listing it as a neighbour) to leave as requested and takes it out of all groups and topology tables.",
 ["histories"], "histories of join/announce/rejoin/leave/remove events incl. network-address reuse and conflicts, against a reference registry",
 "Tests make one or two transitions from one fixed state.",
 ["zigpy/application.py", "zigpy/zdo/__init__.py"],
 [("handle_join/handle_leave/handle_relays/remove/_remove_device", "zigpy/application.py"), ("ZDO.handle_message Device_annce", "zigpy/zdo/__init__.py"), ("get_device", "zigpy/application.py")],
 observe=["app.devices", "get_device", "listener events", "packets"])

prop("C15", "Interviewing a device converges to its description in spite of faults",
 "For any device description and any pattern of lost, failed or repeated interview replies, an interview either ends with the device fully initialised, with exactly the node descriptor, endpoints, profiles, device types, clusters, manufacturer and model the device reports, or leaves it uninitialised and able to be interviewed again. Repeating a failed interview until the device answers reaches the same result as an undisturbed one and announces the initialised device exactly once. Parts already learned are not lost by a failed attempt.",
 ["fault_sequences", "inputs"], "generated device descriptions x per-request fault plans (timeout, error status, delivery failure) under a virtual clock",
 "Tests fail one fixed request at a time on one device layout.",
 ["zigpy/device.py", "zigpy/endpoint.py", "zigpy/zdo/__init__.py", "zigpy/application.py"],
 [("Device.initialize/_initialize/get_node_descriptor", "zigpy/device.py"), ("Endpoint.initialize/get_model_info", "zigpy/endpoint.py"), ("device_initialized", "zigpy/application.py")],
 observe=["device attributes after interview", "device_initialized events"])

prop("C16", "Group membership agrees from both sides and with what devices accepted",
 "After any history of adding and removing members, adding and removing groups, and clearing, an endpoint lists a group exactly when that group lists the endpoint, and a group's membership contains exactly the endpoints added and not removed since. A membership changes only when the device reported success (or that it already was, respectively was not, a member), and each real change is announced once; repeating an operation changes and announces nothing.",
 ["histories"], "histories of group operations over several devices with generated device status replies, against a reference relation",
 "Tests perform single operations on one endpoint and one group.",
 ["zigpy/group.py", "zigpy/endpoint.py", "zigpy/zcl/clusters/general.py"],
 [("Groups/Group.add_member/remove_member", "zigpy/group.py"), ("Endpoint.add_to_group/remove_from_group", "zigpy/endpoint.py")],
 observe=["group.members", "endpoint.member_of", "listener events", "packets to groups"])

prop("C17", "Attribute reads, writes and reports keep the cache true and complete",
 "Reading attributes returns, for every requested attribute, exactly one of the reported value converted to the attribute's type or the reported failure status, in whatever order records come back and even when the response also carries other attributes; writes carry the values encoded with the attributes' types. After any history of reads, writes, reports and failures the cached value of an attribute is the last one the device reported or accepted, attributes last reported as unsupported that have no cached value are refused from cache without being asked for, and each change is announced to listeners with the attribute and value. Cache-only reads never send packets.",
 ["histories", "inputs"], "histories of read/write/report/configure operations with a modelled device over generated attribute sets and values, against a reference cache",
 "Tests use one attribute and one record per call.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py"],
 [("Cluster.read_attributes/write_attributes/handle_cluster_general_request/_update_attribute", "zigpy/zcl/__init__.py")],
 state=[("attribute cache", "last known attribute values", "zigpy/zcl/__init__.py"), ("unsupported attributes", "attributes the device rejected", "zigpy/zcl/__init__.py")],
 observe=["read_attributes result", "cluster.get", "listener events", "packets"])

prop("C18", "OTA images parse and serialise without changing a byte",
 "Any valid OTA image (any header options, any sequence of sub-elements, any sizes) serialises to bytes whose length is the declared image size and parses back to an equal image, and any byte string that parses serialises to the bytes consumed with trailing bytes returned untouched. Truncated images and images whose lengths contradict each other are rejected with a value error, and vendor containers are unwrapped to exactly the image they contain.",
 ["inputs"], "generated images, containers, truncations and mutations",
 "Tests parse a few constant images.",
 ["zigpy/ota/image.py", "zigpy/ota/providers.py"],
 [("OTAImage/OTAImageHeader/SubElement", "zigpy/ota/image.py"), ("HueSBLOTAImage, parse_ota_image", "zigpy/ota/image.py")],
 observe=["serialize/deserialize/parse_ota_image"])

prop("C19", "Corrupt firmware is never judged valid and sound firmware never invalid",
 "An EBL or GBL firmware container that is well formed (tags, lengths, padding and checksum as specified) is judged valid, and one with any corrupted, truncated, reordered-beyond-format or extended content that breaks its checksum or structure is judged invalid. An OTA image is invalid when the check of any of its upgrade images fails, valid when it has upgrade images and all of them can be checked and are sound, and unknown otherwise.",
 ["inputs"], "generated containers, every single-byte corruption and truncation of small ones, random corruptions of larger ones, against an independent validator",
 "Tests corrupt a fixed image at a few places.",
 ["zigpy/ota/validators.py"],
 [("parse_silabs_ebl/parse_silabs_gbl/validate_firmware/validate_ota_image", "zigpy/ota/validators.py")],
 observe=["validate_ota_image / validate_firmware result or ValidationError"])

prop("C20", "Only compatible firmware is offered, newest and most specific first",
 "For any set of firmware entries and any query a device makes, the upgrades offered are exactly the downloadable ones of the device's manufacturer and image type whose constraints (current version window, hardware version range, model and manufacturer names, stated by the entry or, where it is silent, by the header of the image) admit the device, that carry a higher version, and that do not clash with others that cannot be told apart; downgrades are the admitted entries without a higher version. The upgrades are ordered from the highest version and most specific entry down. Answers do not depend on which queries were made before, beyond the images already downloaded.",
 ["inputs", "configurations"], "generated provider indexes, images and device queries, against a reference matcher",
 "Tests match a few fixed metadata records.",
 ["zigpy/ota/__init__.py"],
 [("OtaImageWithMetadata.check_compatibility/check_version/specificity", "zigpy/ota/__init__.py"), ("OTA.get_ota_images", "zigpy/ota/__init__.py")],
 observe=["OTA.get_ota_images result"])

prop("C21", "An OTA update delivers exactly the image and always terminates cleanly",
 "During a firmware update, whatever order, offset, size, repetition or delay of block requests the device chooses, every block served equals the image bytes at the requested offset and within the requested size, and requests out of range and queries of devices the image does not suit are refused. The update ends with the status the device reported, or with an error on delivery failure, or with a timeout when the device stops asking, exactly once, and afterwards no update handlers remain and another update can start. Progress reports never decrease for sequential transfers and never exceed 100 percent.",
 ["histories", "fault_sequences"], "modelled devices with generated request patterns, faults and pauses under a virtual clock",
 "Tests run a single sequential transfer and a few single-fault variants.",
 ["zigpy/ota/manager.py", "zigpy/device.py"],
 [("OTAManager", "zigpy/ota/manager.py"), ("update_firmware", "zigpy/ota/manager.py, zigpy/device.py")],
 observe=["packets to the device", "update_firmware result", "progress callback"])

prop("C22", "Firmware that does not match its advertised size or digest is never accepted",
 "Whatever index and file contents a firmware source serves, a fetched firmware is accepted only if its size and every advertised digest or signature match its metadata, and an accepted firmware is byte for byte what was served (after the documented unwrapping). One malformed index or file, or one failing source, never prevents the others from being used. Entries parsed from an index carry exactly the fields the index states.",
 ["inputs", "fault_sequences"], "generated indexes and files for every provider format, with corruptions, errors and concurrent queries, served by a local stand-in",
 "Tests use recorded index snapshots and one corrupted file.",
 ["zigpy/ota/providers.py", "zigpy/ota/__init__.py"],
 [("BaseOtaImageMetadata.fetch", "zigpy/ota/providers.py"), ("provider load_index implementations", "zigpy/ota/providers.py"), ("OTA._load_provider_index / _fetch_image", "zigpy/ota/__init__.py")],
 observe=["fetch() result", "load_index() result", "OTA.get_ota_images"])

prop("C23", "A device gets the most specific matching quirk and its unmatched parts are kept",
 "For any set of registered device quirks and any device, the quirk applied is the first in the documented precedence (manufacturer and model, then manufacturer, then model, then wildcard; most recently registered first) whose signature equals the device's endpoints, profiles, device types and cluster sets; a device matching none is returned unchanged. The replacement device has exactly the endpoints, clusters and device types the quirk declares and keeps addresses, node descriptor, manufacturer and model. Registering and removing quirks affects nothing else.",
 ["configurations"], "generated registries of quirks and devices, against a reference matcher",
 "Tests match one device against one or two quirks.",
 ["zigpy/quirks/registry.py", "zigpy/quirks/__init__.py"],
 [("DeviceRegistry.get_device/_match", "zigpy/quirks/registry.py"), ("CustomDevice.__init__", "zigpy/quirks/__init__.py")],
 observe=["registry.get_device(device)"])

prop("C24", "Declarative quirks change exactly what they declare",
 "Applying a declarative quirk to a device it applies to yields a device that differs from the original exactly by the declared additions, removals and replacements of endpoints and clusters on the declared sides, with all other endpoints, clusters and cached attribute values intact, and exposing exactly the declared entities, triggers, node descriptor and settings. Constant attributes always read back their constants, whether addressed by name or id and without traffic. A quirk is applied only when one of its manufacturer/model pairs and all of its filters accept the device, and ambiguity is reported as an error rather than resolved silently.",
 ["programs"], "generated builder programs and devices, against a reference transformation",
 "Tests check each builder method once in isolation.",
 ["zigpy/quirks/v2/__init__.py", "zigpy/quirks/registry.py"],
 [("QuirkBuilder, QuirksV2RegistryEntry", "zigpy/quirks/v2/__init__.py"), ("CustomDeviceV2", "zigpy/quirks/v2/__init__.py")],
 observe=["registry.get_device(device)"])

prop("C25", "Topology scans record complete tables and survive failing devices",
 "For any neighbour and route tables of any size, paging and reply content served by devices, a scan records for every device that answered exactly the valid entries it reported, and keeps what was known about devices that failed; a device that refuses has no entries and is not asked again. A failing, refusing or absurdly replying device neither aborts the scan of others nor makes it endless, and devices newly discovered in neighbour tables are looked up once. Concurrent or repeated scans do not overlap.",
 ["inputs", "fault_sequences"], "generated tables, page sizes, inconsistent counters and faults under a virtual clock, against a reference scan",
 "Tests serve one or two fixed tables.",
 ["zigpy/topology.py"],
 [("Topology.scan/_scan/_scan_table", "zigpy/topology.py"), ("_find_unknown_devices", "zigpy/topology.py")],
 observe=["topology.neighbors/routes", "listener events", "packets"])

prop("C26", "Diagnostic counters never lose or invent counts",
 "After any sequence of updates and resets a counter's value is the sum of everything counted since creation: raw device readings that grow add their growth, readings that restart from a lower value count as a device restart without decreasing the total, and explicit resets are included once. Counters, groups and collections keep identity and iterate over exactly what was created.",
 ["histories"], "sequences of update/increment/reset with arbitrary readings, against a reference sum",
 "Tests apply a few fixed updates.",
 ["zigpy/state.py"],
 [("Counter, CounterGroup, CounterGroups", "zigpy/state.py")],
 observe=["Counter.value, last_reset, reset_count"])

prop("C27", "Response listeners fire for exactly the frames that match, then vanish",
 "A frame that is not the reply to a pending request goes to the listeners in order of registration, those for any device before those of its sender, up to and including the first one-shot listener with a matching pattern, which it resolves and removes; callback listeners on the way are called if they match, and none is called after its removal. Patterns match on every field they specify and ignore the rest, including nested fields. Whatever listeners do (raise, get cancelled, register or remove listeners) every other listener and normal processing of the frame still take place, and cancelled or finished listeners are removed.",
 ["histories", "inputs"], "histories of register/cancel/receive with generated patterns and frames, against a reference matcher",
 "Tests use two patterns and a couple of frames.",
 ["zigpy/listeners.py", "zigpy/application.py", "zigpy/types/struct.py"],
 [("BaseRequestListener.resolve", "zigpy/listeners.py"), ("callback_for_response/wait_for_response", "zigpy/application.py"), ("Struct.matches", "zigpy/types/struct.py")],
 observe=["futures and callbacks"])

prop("C28", "Install codes convert to link keys exactly when their checksum is right",
 "Every install code of a legal length whose trailing checksum is right converts to the link key that the AES-MMO hash of the specification gives, and every code with a wrong checksum or illegal length is refused. Joining with an install code hands the radio exactly the device address and that key, and refused codes hand it nothing. Opening the network for joining asks exactly the device named, the radio itself, or by default every router and the radio, for exactly the given time.",
 ["inputs"], "random install codes of every length 0..32, every single-bit corruption, against an independent AES-MMO implementation",
 "Tests use two published vectors.",
 ["zigpy/util.py", "zigpy/application.py"],
 [("aes_mmo_hash / convert_install_code", "zigpy/util.py"), ("permit_with_link_key / permit", "zigpy/application.py")],
 observe=["convert_install_code", "permit_with_link_key arguments"])

prop("C29", "Formed networks are valid and energy-aware; channel choices stay in the mask",
 "A channel picked from any energy readings and any permitted-channel mask is always a permitted one with the least penalised energy, and a scan reports every requested channel even when devices answer partially, repeatedly or not at all. Forming a network always produces a complete valid network: an address other than the reserved ones, requested settings kept unchanged, unspecified identifiers and keys filled in, a channel from the mask. Moving a network to another channel tells every device and then the radio, with the next update id, and keeps every other setting.",
 ["inputs", "configurations"], "generated masks, energies, network configurations and partial scan replies",
 "Tests pick a channel from two energy tables; randomised fields are sampled once.",
 ["zigpy/application.py", "zigpy/util.py"],
 [("pick_optimal_channel / logistic", "zigpy/util.py"), ("form_network / energy_scan / move_network_to_channel", "zigpy/application.py")],
 observe=["write_network_info arguments", "energy_scan result"])

prop("C30", "Startup and shutdown end in a clean state whichever step fails",
 "Whatever step of starting up fails (opening the radio, reading its settings, starting or forming the network, background setup), the error reaches the caller, the radio is disconnected, background tasks are stopped and the database is closed, and a new start works when the fault is gone. A shutdown always closes everything even if individual steps fail. While running, a failing health check or lost connection is reported exactly once.",
 ["fault_sequences"], "fault plans over the radio operations and repeated start/stop sequences under a virtual clock",
 "Tests fail one step in isolation.",
 ["zigpy/application.py"],
 [("startup/initialize/shutdown/connection_lost/_watchdog_loop", "zigpy/application.py"), ("auto_load", "zigpy/application.py")],
 observe=["exceptions", "radio calls", "remaining tasks", "connection_lost events"])

prop("C31", "Configuration is accepted exactly when valid and normalised stably",
 "Every configuration value in an accepted form (hexadecimal or decimal keys and identifiers, channel lists, booleans in all spellings, paths, provider lists) is converted to the same setting whichever form is used, everything outside the documented domains is rejected, and defaults are filled in without altering given values. Validating an already validated configuration changes nothing.",
 ["configurations"], "generated configuration fragments, valid and invalid, against reference converters",
 "Tests try a few values per key.",
 ["zigpy/config/__init__.py", "zigpy/config/validators.py", "zigpy/config/defaults.py"],
 [("validators", "zigpy/config/validators.py"), ("CONFIG_SCHEMA", "zigpy/config/__init__.py")],
 observe=["SCHEMA(config)"])

prop("C32", "Events reach every listener once, failures stay isolated, retries are counted",
 "An event reaches every registered listener that handles it exactly once, in spite of other listeners raising, in synchronous or asynchronous form, and removed listeners get nothing. A retried operation is attempted until it succeeds, raises an error outside the retryable set, or the allowed number of tries is used up, waiting between tries, and then surfaces its own result or last error. Concurrent identical calls that are combined run once and all callers get the same outcome, while different calls are not combined, and later calls run anew.",
 ["schedules", "fault_sequences"], "generated listener sets, failure plans and call schedules under a virtual clock",
 "Tests use single listeners and single retry counts.",
 ["zigpy/util.py"],
 [("ListenableMixin", "zigpy/util.py"), ("retry/retryable/retryable_request", "zigpy/util.py"), ("combine_concurrent_calls", "zigpy/util.py")],
 observe=["listener calls", "call counts and outcomes"])

prop("C33", "Outgoing requests hand the radio exactly the intended packet",
 "Every unicast, multicast and broadcast request produces exactly one packet per attempt, whose source and destination addresses and endpoints, profile, cluster, sequence number, payload, radius and delivery options are those the caller asked for; no two requests outstanding to a device share a transaction number. Source routes used for a device are the latest it reported, with loops and reserved relays excluded. Delivery failures reach the caller as delivery errors and never as success, and the outcome of a group request names the command that was sent.",
 ["inputs", "fault_sequences"], "generated request parameters, relay reports and delivery faults, observed at a stand-in radio",
 "Tests check a few fixed parameter combinations.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/group.py", "zigpy/zdo/__init__.py"],
 [("request/mrequest/broadcast/build_source_route_to", "zigpy/application.py"), ("Device.request/get_sequence", "zigpy/device.py"), ("handle_relays", "zigpy/application.py")],
 observe=["packets handed to the radio"])

prop("C34", "What devices ask the coordinator is answered exactly once, and correctly",
 "Every attribute read a device sends is answered exactly once with one record per requested attribute in order: the value the coordinator has (clock, local time, time zone, power source, ZCL version) or 'unsupported'; unicast reports and zone status changes that ask for it get exactly one default response, address and matching queries about the coordinator one response with its addresses, firmware queries and block requests outside an update a refusal, and other frames none. Every answer carries the transaction number and manufacturer code of the question and goes to the asking device, endpoint and cluster in the opposite direction. A failure to send one answer affects nothing else.",
 ["inputs", "histories", "fault_sequences"], "generated streams of questions from devices of generated shapes, with clocks, time zones and failing sends",
 "Tests ask single questions of single clusters with mocked request methods, so the frames that go out are hardly looked at.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/clusters/general.py", "zigpy/zcl/clusters/security.py", "zigpy/zdo/__init__.py", "zigpy/device.py", "zigpy/endpoint.py"],
 [("Cluster.handle_message/handle_cluster_general_request/_send_default_response", "zigpy/zcl/__init__.py"), ("Basic/Time/Ota command handlers", "zigpy/zcl/clusters/general.py"), ("ZDO.handle_nwk_addr_req/handle_ieee_addr_req/handle_match_desc_req", "zigpy/zdo/__init__.py"), ("Device.packet_received", "zigpy/device.py")],
 observe=["packets handed to the radio"])

prop("C35", "Cluster requests, bindings and reporting reach devices exactly as asked",
 "Every command, attribute read or write, reporting configuration, discovery, binding and unbinding made through a cluster sends exactly one frame saying just what was asked: identifiers, types and arguments as defined and in the given order, the given intervals and changes, and for bindings the device's own address, endpoint and cluster with the coordinator as destination; the direction follows from the cluster's side. The manufacturer code is the caller's if given, on quirk clusters otherwise the device's (or its override) exactly when the cluster, the command or an attribute is manufacturer-specific, and else absent. Requests that cannot be encoded (unknown names, missing, excess or out-of-range values) are refused with an error before anything is sent or a transaction number is used up.",
 ["inputs", "histories"], "generated cluster classes (ordinary and quirk) with generated attribute and command definitions, devices and request sequences, compared with hand-built frames",
 "Tests check the request helpers with mocks on a few clusters; the product of definitions, manufacturer-code sources and request kinds is not enumerable.",
 ["zigpy/zcl/__init__.py", "zigpy/quirks/__init__.py", "zigpy/zdo/__init__.py", "zigpy/zcl/foundation.py", "zigpy/application.py"],
 [("Cluster.request/reply/general_command/configure_reporting", "zigpy/zcl/__init__.py"), ("CustomCluster.command/_has_manuf_attr/_read_attributes", "zigpy/quirks/__init__.py"), ("ZDO.bind/unbind", "zigpy/zdo/__init__.py"), ("get_dst_address", "zigpy/application.py")],
 observe=["packets handed to the radio", "exceptions"])

prop("C36", "Radio connections are opened as configured and their errors surface",
 "Opening a connection uses TCP with exactly the host and port of the URL (6638 if it names none) for socket and TCP URLs, and otherwise the serial port of that name with exactly the requested speed (115200 by default), exclusivity and further settings, a flow-control name overriding the individual switches. Exactly one connection is made, and its transport and protocol are handed back. Failures surface as the operating system's own error rather than a wrapper of it, and a TCP connection that hangs is given up after five seconds.",
 ["configurations", "fault_sequences"], "generated URLs, settings, delays and failures against a reference, with recording stand-ins for both back ends",
 "Tests try one URL per scheme and one failure.",
 ["zigpy/serial.py"],
 [("create_serial_connection", "zigpy/serial.py")],
 observe=["arguments of the connection made", "exceptions"])

prop("C37", "Background work runs exactly as configured",
 "While running, each enabled periodic job and no other happens at its configured pace: the radio health check every thirty seconds from the start, a network backup immediately and then every backup period, a topology scan after every scan period, an over-the-air announcement after the initial delay and then every interval, an energy scan once per start. Failures of a round do not end a schedule (except a failed health check, which is a lost connection), starting a job again replaces its schedule, and stopping the job or the application ends it. The coordinator registers its two standard endpoints followed by the configured additional ones, in order and as given, and a failure to do so surfaces.",
 ["configurations", "histories", "schedules", "fault_sequences"], "generated configurations, run for virtual days with slow and failing radios and jobs restarted at any time, against a reference schedule",
 "Tests check one job at a time, with patched sleeps; the product of options, restarts and failures is not enumerable.",
 ["zigpy/application.py", "zigpy/config/__init__.py", "zigpy/config/validators.py", "zigpy/ota/__init__.py", "zigpy/backups.py", "zigpy/topology.py"],
 [("initialize/_watchdog_loop/register_endpoints", "zigpy/application.py"), ("OTA.broadcast_loop/start_periodic_broadcasts", "zigpy/ota/__init__.py"), ("_backup_loop", "zigpy/backups.py"), ("_scan_loop", "zigpy/topology.py")],
 observe=["radio operations and packets with their times", "endpoints registered"])

prop("C38", "Firmware is looked for exactly where the configuration says",
 "Exactly the configured firmware sources are consulted, in the order listed and at the configured (else default) addresses and files, and only for devices of the source's manufacturers (every manufacturer if it names none). Disabled kinds are left out, a source overriding its predecessors replaces those of its kind, deprecated options mean the equivalent source, and nothing is consulted if firmware updates are disabled. A source is not asked again while its index is fresh, and failing sources do not keep others from being consulted.",
 ["configurations", "histories", "fault_sequences"], "generated configurations with every kind of source, deprecated options and devices, against a reference list",
 "Tests check a few configurations by comparing provider objects rather than what is consulted.",
 ["zigpy/config/__init__.py", "zigpy/config/validators.py", "zigpy/ota/__init__.py", "zigpy/ota/providers.py"],
 [("OTA._register_providers/get_ota_images", "zigpy/ota/__init__.py"), ("BaseOtaProvider.load_index/compatible_with_device", "zigpy/ota/providers.py"), ("cv_ota_provider/cv_ota_provider_name", "zigpy/config/validators.py")],
 observe=["addresses and files read"])

prop("C39", "Packets reach the device they come from, known, half known or unknown",
 "A packet of an interviewed device is processed; one of a device whose interview is unfinished restarts the interview unless it runs or the device is being removed, and is processed as far as the interview got: ZDO messages always, all once its endpoints are described, Basic-cluster messages once they are listed, and anything else by the registered handlers for such devices, up to the first that takes it. Every processed packet, a duplicate too, updates when the device was last seen and (if it tells) its link quality, and is reported to listeners once, whereas a packet or route from an unknown network address makes the application ask once for its owner (an address response or announcement makes it known, even before the coordinator itself is) and other unknown sources have no effect. A known device is found under its hardware and network addresses in either form, and matches a quirk signature made from it.",
 ["histories", "fault_sequences"], "simulated devices that stop answering their interview at a drawn step, and histories of packets from them and from strangers, joins, removals, repetitions and fast-initialising handlers",
 "Tests send one packet to devices in a few states set up by hand.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/quirks/__init__.py", "zigpy/zdo/__init__.py"],
 [("packet_received/get_device/get_device_with_address/_discover_unknown_device/handle_relays/_maybe_parse_zdo", "zigpy/application.py"), ("Device.packet_received/get_signature", "zigpy/device.py"), ("handle_message_from_uninitialized_sender/signature_matches", "zigpy/quirks/__init__.py")],
 observe=["handlers and listeners called", "requests and broadcasts sent", "device attributes"])

prop("C40", "Starting up restores, forms, refuses or starts the network as configured",
 "Starting on a radio without a network fails, changing nothing, unless forming is asked for; then the most recent backup is written to it exactly, its network key's frame counter advanced by ten thousand, or, without one, a new network with every configured setting. With validation enabled, a network that differs from the most recent backup in anything devices depend on is refused with both settings named before it is started (or written to), and otherwise the radio's network is started as it is. A started network is closed to joining (interference may keep that from being announced but not the coordinator from being closed), is what the application's state says, and becomes the most recent backup when backups are enabled; a failed start leaves the radio disconnected and the backups unharmed.",
 ["configurations", "histories", "fault_sequences"], "generated radios, backups, configurations and announcement failures, and restarts with changed or replaced radios, against a decision table",
 "Tests check single rows of the decision with patched methods.",
 ["zigpy/application.py", "zigpy/backups.py", "zigpy/state.py"],
 [("initialize/startup/form_network/permit", "zigpy/application.py"), ("restore_backup/most_recent_backup/is_compatible_with", "zigpy/backups.py")],
 observe=["operations on the radio with their arguments", "exceptions", "backups", "application state"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
