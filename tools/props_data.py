prop("C01","Every received PDU header is decoded exactly",
 "For every 48-byte basic header segment, each field the target later acts on (opcode, immediate, final/transit/continue, AHS and data lengths, LUN, task tags, CDB, expected transfer length, read/write flags, sequence numbers, stages, session and connection identifiers, buffer offset) equals the big-endian field RFC 7143 places there for that opcode; READ and WRITE CDBs always count as reading and writing. A header of any other length is refused, and so is a login, text, NOP or logout request with both the transit/final and the continue bit set; no other header is refused.",
 ["inputs"],"all headers (2^384) and all header lengths","The repository's test decodes one login header; every opcode has its own layout and a wrong offset or width only shows for values the test does not use.",
 [I+"cmd.go"],[("parseHeader, ParseUint",I+"cmd.go")],observe=["the decoded request"])
prop("C02","Every response PDU is encoded exactly",
 "For every response the target sends (login, text, logout, NOP-In, SCSI response, Data-In, R2T, task management), the bytes on the wire carry opcode, flags, status, data segment length, tags, sequence numbers, offsets and residual at the positions RFC 7143 gives them and zero in reserved bytes. The data segment follows the 48-byte header verbatim and is padded with zero bytes to a multiple of four, the length field excluding the padding.",
 ["inputs"],"all values of all response fields and all data segments","The unit tests encode two fixed responses; a slip in one field, one flag combination or one padding length stays invisible to them.",
 [I+"cmd.go",I+"login.go",I+"logout.go","pkg/util/util.go"],[("Bytes and the per-opcode encoders",I+"cmd.go"),("loginRespBytes",I+"login.go"),("logoutRespBytes",I+"logout.go"),("MarshalUint16/32/64","pkg/util/util.go")])
prop("C03","No command reaches storage outside its logical unit",
 "For every CDB and every logical unit size and block size, a READ, WRITE, WRITE AND VERIFY, ORWRITE, PRE-FETCH or VERIFY whose block range does not lie wholly inside the logical unit ends in CHECK CONDITION and causes no access to the backing store, with ILLEGAL REQUEST / LOGICAL BLOCK ADDRESS OUT OF RANGE unless the command is refused for another reason first (no medium, protection bits set, write protection). Every read, write, and advise that any of these commands does issue to the backing store lies inside the addressed blocks and starts at the first of them, and every range an UNMAP hands to the backing store lies inside the logical unit.",
 ["inputs","configurations"],"all CDBs (including wrap-around LBAs and lengths), all sizes and block shifts, all data-out lengths","The tests execute single in-range transfers; overflow of LBA plus length or of the byte count needs boundary values.",
 [S+"sbc.go",S+"scsi.go",S+"backingstore.go"],[("SBCReadWrite, SBCVerify range checks",S+"sbc.go"),("getSCSIReadWriteOffset/Count",S+"scsi.go"),("bsPerformCommand",S+"backingstore.go")])
prop("C04","READ returns and WRITE stores exactly the addressed bytes",
 "When a READ(6/10/12/16) ends in GOOD, the data returned to the initiator is, byte for byte, what the backing store holds at the addressed blocks; when a WRITE or WRITE AND VERIFY ends in GOOD, the addressed bytes of the backing store equal the data the initiator sent and no other byte of the store has changed. VERIFY with byte check ends in GOOD only if the stored bytes equal the data sent, and reads change nothing in the store.",
 ["inputs","histories"],"all CDBs, transfer lengths, data contents and store contents; hence, by induction over commands, all histories","Tests write and read back one pattern at one address.",
 [S+"sbc.go",S+"backingstore.go",S+"scsi.go",B+"common.go",B+"remote/remote.go"],[("SBCReadWrite, SBCVerify",S+"sbc.go"),("bsPerformCommand",S+"backingstore.go"),("FileBackingStore.Read/Write",B+"common.go"),("RemBackingStore.Read/Write",B+"remote/remote.go")])
prop("C05","GOOD for a durable write or cache flush implies a completed flush",
 "SYNCHRONIZE CACHE ends in GOOD only after the backing store's flush succeeded, and a WRITE with FUA set, or any WRITE while the caching mode page says the write cache is disabled, ends in GOOD only after a flush that came after the data was written and succeeded. A flush request on the file or the remote store reaches the file's data sync or the remote's sync, and its failure is returned.",
 ["inputs","crash_points","fault_sequences"],"all CDBs, caching-page contents and outcomes of each storage operation, hence all crash points after GOOD","No test observes flush calls, makes them fail, or varies FUA and the caching page.",
 [S+"backingstore.go",S+"sbc.go",B+"common.go",B+"remote/remote.go"],[("bsPerformCommand flush branch",S+"backingstore.go"),("SBCSyncCache",S+"sbc.go"),("DataSync",B+"common.go")])
prop("C06","Failures are never reported as GOOD and carry well-formed sense data",
 "If a storage operation a command needs (read, write, flush, advise, unmap, or the comparison of a verify) fails, the command does not end in GOOD. Whenever a SCSI command ends in CHECK CONDITION, sense data is attached whose format byte, sense key and additional sense code bytes encode that error in the logical unit's configured format (fixed or descriptor) at the positions SPC prescribes.",
 ["inputs","fault_sequences"],"all CDBs, all outcomes of all storage operations, all sense keys and codes, both formats","Tests inject no storage error and check one sense buffer.",
 [S+"backingstore.go",S+"sbc.go",S+"scsi.go",S+"spc.go"],[("BuildSenseData",S+"scsi.go"),("error paths of every command handler",S+"sbc.go")])
prop("C07","Each command runs on the addressed LUN with the handler of its opcode",
 "A SCSI command addressed to a target and LUN is executed on exactly the device mapped to that LUN of that target; if no device is mapped there, LUN 0 falls back to the target's placeholder device and any other LUN ends in CHECK CONDITION / ILLEGAL REQUEST without executing anything. Each opcode the target supports is executed by the operation SPC/SBC defines for it, and every other opcode ends in CHECK CONDITION / ILLEGAL REQUEST / INVALID COMMAND OPERATION CODE without touching the backing store.",
 ["inputs","configurations"],"all 256 opcodes, all LUN fields, all target and LUN maps","Tests dispatch a handful of opcodes to one LUN.",
 [S+"scsi.go",S+"lun.go",S+"sbc.go"],[("AddCommandQueue",S+"scsi.go"),("luPerformCommand",S+"lun.go"),("NewSBCDevice table",S+"sbc.go")])
prop("C08","Capacity and write-protect state are reported truthfully",
 "READ CAPACITY(10) and (16) report the last block number and the block length of the logical unit (the 10-byte form reports FFFFFFFFh when the last block number does not fit), and the mode-sense block descriptor reports the same block length and, when it fits, the number of blocks. MODE SENSE shows the write-protect bit exactly when the logical unit is read-only or software write protected.",
 ["inputs","configurations"],"all sizes, block sizes, allocation lengths and protection states","Tests look at one device size.",
 [S+"sbc.go",S+"spc.go"],[("SBCReadCapacity, SBCReadCapacity16, SBCModeSense",S+"sbc.go"),("InitLu mode block descriptor",S+"sbc.go")])
prop("C09","A write-protected logical unit is never modified",
 "While a logical unit is read-only or software write protected, no WRITE, WRITE AND VERIFY, ORWRITE, WRITE SAME, UNMAP or FORMAT UNIT command changes its backing store, and each such well-formed command ends in CHECK CONDITION with DATA PROTECT / WRITE PROTECTED. Nothing the initiator sends clears that state.",
 ["inputs","configurations"],"all CDBs and parameter data for all protected logical units","No test enables write protection.",
 [S+"sbc.go"],[("write-protect checks",S+"sbc.go")])
prop("C10","Data-In sequences deliver the whole buffer once, in order",
 "For every read response and segment size, the Data-In PDUs sent carry consecutive, non-overlapping pieces of the data starting at offset zero whose buffer offsets and lengths match the piece carried and whose concatenation is the whole data; DataSN counts 0,1,2,... and no piece exceeds the segment size, which is at most what the initiator declared at login. Exactly the last PDU of the transfer carries the final and status bits, and a sequence is closed with the final-in-sequence bit before it exceeds the burst size.",
 ["inputs"],"all data lengths, segment sizes and burst sizes","Tests send responses that fit one PDU.",
 [I+"iscsid.go",I+"cmd.go"],[("txHandler segmentation",I+"iscsid.go"),("dataInBytes",I+"cmd.go")])
prop("C11","Write data from Data-Out PDUs lands at its place, with correct R2Ts",
 "Immediate data is stored at the start of a write's buffer and every Data-Out payload is stored contiguously after what arrived before it, changing no other byte and never running outside the buffer; the write is executed exactly when the last needed byte has arrived. Every R2T asks for data starting at the first byte not yet received, for no more than what is missing and no more than the negotiated maximum burst length, with R2TSN counting from zero.",
 ["inputs","histories"],"all write lengths, immediate and Data-Out payload sizes and their sequence","Tests send one small write with no R2T.",
 [I+"iscsid.go",I+"conn.go"],[("scsiCommandHandler Data-Out branch",I+"iscsid.go"),("buildRespPackage R2T branch",I+"conn.go")])
prop("C12","Login negotiation only ever yields permitted parameter values",
 "For every login request text, each session parameter that results is either the target's default or a value inside the permitted range, parameters that the target does not let the initiator change keep the target's default (its limit for sending, MaxXmitDataSegmentLength, is what the initiator declares as its MaxRecvDataSegmentLength), and the answer sent for any other key equals the value that is then in force. A login enters full feature phase only if the request asked for it or the target had to change an offered value, and an offer of authentication methods that does not contain None is refused.",
 ["inputs"],"all login texts: all subsets and values of keys","Tests try one negotiation text.",
 [I+"login.go",I+"session.go",I+"conn.go"],[("processLoginData, processSecurityData",I+"login.go"),("sessionKeys",I+"session.go")])
prop("C13","Session handles are unique and never the reserved values",
 "A handle given to a new session is never 0 or FFFFh while any handle is free, was not in use by another session, is in use afterwards, and stays so until that session ends; releasing a handle frees exactly that one. Combining a session identifier from ISID and portal group tag and splitting it again returns both unchanged.",
 ["inputs","histories"],"all histories of allocation and release; all identifiers","Tests allocate no more than a few handles.",
 [I+"iscsid.go",I+"iscsit.go",I+"session.go"],[("AllocTSIH, ReleaseTSIH",I+"iscsid.go"),("MakeSSID, ParseSSID",I+"iscsit.go")],state=[("TSIHPool","handles in use",I+"iscsid.go")])
prop("C14","Non-immediate commands execute once each, in CmdSN order",
 "A non-immediate command is executed only when its CmdSN is the next expected one, which then advances by exactly one; a command ahead of that, complete with its data, is kept pending and executed as soon as its turn comes, and a command behind it (a duplicate) is not executed. An immediate command executes at once and leaves the expected CmdSN unchanged.",
 ["inputs","histories"],"all arrival orders and CmdSN values, including wrap-around","Tests send commands in order.",
 [I+"iscsid.go",I+"session.go"],[("iscsiTaskQueueHandler",I+"iscsid.go"),("taskQueue",I+"session.go")])
prop("C15","Key=value text survives encoding and decoding",
 "Decoding iSCSI text yields for each NUL-terminated key=value item the exact key and value bytes (the value may contain further '=' signs), the last one for a repeated key, and nothing else. Encoding a list of pairs concatenates key, '=', value and NUL for each pair in order, so that decoding an encoded list returns it.",
 ["inputs"],"all byte strings and all lists of pairs","Tests decode one fixed text.",
 ["pkg/util/util.go"],[("ParseKVText, MarshalKVText","pkg/util/util.go")])
prop("C16","The LUN map gives each target exactly the devices mapped to it",
 "After mapping a LUN of a target to a device, looking up that LUN of that target yields that device, and after removing the mapping it yields none; other LUNs, other targets and the devices themselves are unaffected by either. Adding a storage device under an identifier already in use fails and leaves the existing device in place.",
 ["inputs","histories"],"all targets, LUNs, devices and histories of mapping operations","Tests map one LUN.",
 [S+"scsilumap.go"],[("mappingLUN, AddLUNMapping, DelLUNMapping, GetLU, AddBackendStorage",S+"scsilumap.go")],state=[("globalSCSILUMap","devices and LUN maps",S+"scsilumap.go")])
prop("C17","Persistent reservations follow key and holder rules",
 "A persistent reservation service action changes registrations or the current reservation only when the requesting nexus presents its registered key (or registers for the first time with key zero, or registers ignoring the existing key); otherwise it ends in RESERVATION CONFLICT or CHECK CONDITION and changes nothing. Removing a registration removes exactly that one, and releasing, clearing or preempting affects exactly the reservation and registrations the action names.",
 ["inputs","histories"],"all registries, nexuses, keys, service actions and parameter lists","No test executes a reservation command with registered nexuses.",
 [S+"spc.go",S+"scsi_pr.go"],[("SPCPRRegister .. SPCPRPreempt",S+"spc.go"),("SCSISimpleReservationOperator",S+"scsi_pr.go")],state=[("targetReservations","registrations and holder per LU",S+"scsi_pr.go")])
prop("C18","No SCSI command can crash the target",
 "Whatever 16-byte CDB, LUN, transfer direction, transfer length and data an initiator sends to a logical unit, command processing terminates without a panic: no access outside a buffer, no use of an absent buffer or device, no division by zero, no failed conversion. The same holds for decoding a header, decoding text and encoding the response.",
 ["inputs"],"all CDBs, directions, data-in and data-out buffers, device configurations","A crash needs a malformed or unusual CDB/length combination; tests send well-formed commands.",
 [S+"spc.go",S+"sbc.go",S+"scsi.go",S+"backingstore.go",I+"cmd.go"],[("every operation reachable from the opcode table",S+"sbc.go")])
prop("C19","REPORT LUNS, INQUIRY and MODE SENSE answers are well formed",
 "REPORT LUNS lists LUN 0 and every mapped LUN exactly once in the peripheral or flat addressing form, with a list length equal to eight times the number of LUNs listed. INQUIRY and MODE SENSE answers carry the device type, page code and length fields that match the data that follows, no byte is returned beyond the allocation length, and the length returned never exceeds the initiator's buffer.",
 ["inputs","configurations"],"all LUN maps, pages, allocation lengths and buffers","Tests look at one page with an ample buffer.",
 [S+"spc.go"],[("SPCReportLuns, SPCInquiry and pages, SPCModeSense",S+"spc.go")])
prop("C20","I/O statistics count each completed command once",
 "Each SCSI response reported increases exactly the counters of its kind: one read or write operation with its byte count for READ and WRITE opcodes, none for others, and the per-opcode count by one. A statistics snapshot equals the counters at that moment and is not changed by later commands.",
 ["inputs","histories"],"all opcodes, lengths and prior counter states","Tests do not enable statistics.",
 [I+"iscsid.go"],[("UpdateStats, Stats",I+"iscsid.go")],state=[("TargetStats","counters",I+"iscsid.go")])
prop("C21","The pending-task set finds, removes and aborts exactly the tagged task",
 "Looking up a task tag yields a pending task with that tag if there is one and none otherwise; removing a tag removes exactly one such task and keeps all others in order. ABORT TASK answers function complete exactly if the referenced task was pending, which is then no longer pending, and task does not exist otherwise; unsupported functions answer not supported and unknown ones rejected, and neither changes the pending tasks.",
 ["inputs","histories"],"all pending sets and tags, all task management function codes","Tests issue no task management request.",
 [I+"session.go",I+"iscsid.go"],[("taskQueue",I+"session.go"),("iscsiExecTask",I+"iscsid.go")])
prop("C22","Every lock taken is released exactly once on every path",
 "Every function that takes a lock has released it on every return path, never releases a lock it does not hold and never takes a lock it already holds exclusively. The shared session-handle pool, pending-task set, LUN map and statistics are modified only while their lock is held.",
 ["schedules","inputs"],"all paths through the functions that use locks","A leaked or missing lock shows only on the error path or interleaving that uses it.",
 [I+"iscsid.go",I+"session.go",S+"scsilumap.go",S+"scsi.go",S+"target.go"],[("mutex use",I+"iscsid.go")])
prop("C23","Sessions are joined and addressed only by their own identity",
 "A login that names a session handle joins a session only if a session of the same initiator with that handle, ISID and portal group exists on the named target, and a login to an unknown target or portal, or naming a handle that does not exist, is refused without changing any session. A new session is recorded under its own handle in exactly the target it logged in to, with the ISID, portal group and negotiated parameters of that login.",
 ["inputs","histories"],"all login identities and all session tables","Tests log in once to one target.",
 [I+"session.go"],[("BindISCSISession, LookupISCSISession, NewISCSISession",I+"session.go")])
prop("C24","Concurrent initiators never interfere with each other's data",
 "Under every interleaving of commands from several connections, the effect on each logical unit and the answers each initiator gets are those of some serial order of the commands.",
 ["schedules"],"all interleavings of handler goroutines","Tests drive one connection at a time.",
 [I+"iscsid.go",S+"scsi.go"],[("per-connection goroutines and locks",I+"iscsid.go")])
prop("C25","Configuration is loaded and saved without loss",
 "Reading a configuration file yields exactly the storages, portals and targets written there, and saving a configuration and loading it again yields the same configuration.",
 ["configurations"],"all configurations","Tests load one sample.",
 ["pkg/config/config.go"],[("Load, Save","pkg/config/config.go")])
prop("C26","The management API changes exactly the named target or LUN",
 "Each HTTP management request creates, lists or removes exactly the target or LUN it names and reports an error otherwise.",
 ["inputs","histories"],"all requests","Tests use a mocked transport.",
 ["pkg/apiserver/apiserver.go"],[("routers","pkg/apiserver/router")])
prop("C27","Every request is followed by the next, and answered at most once",
 "After every PDU received, a connection goes on to read exactly one further PDU, from its start, or it is closed: neither a request that is refused, waits for its turn or for data, nor one that gets no response makes it stop. At most one response is sent for a request, only after that response is made, and pings, logouts and task management requests that are executed get theirs; a connection that cannot be read or written any more is closed.",
 ["inputs","histories"],"all requests in all phases of a connection, and failures of the connection","A connection that stalls or reads twice shows only after unusual requests, which tests do not send.",
 [I+"iscsid.go"],[("rxHandler, scsiCommandHandler, txHandler, handler",I+"iscsid.go")])
prop("C28","SCSI requests are served only after a complete login to a target",
 "A connection starts outside any session; a request other than a login that arrives before the login is complete is not given to the SCSI layer and does not complete the login. A login is complete only after the negotiation of parameters agreed on the full feature phase and a session was joined, and SCSI requests are served only after the response to it is sent, and only in a normal session, which has a target and a nexus.",
 ["inputs","histories"],"all sequences of requests before, during and after a login","Tests log in as an initiator should.",
 [I+"iscsid.go",I+"conn.go"],[("iscsiExecLogin, rxHandler, txHandler",I+"iscsid.go")],state=[("iscsiConnection.state","phase of the connection",I+"conn.go")])
