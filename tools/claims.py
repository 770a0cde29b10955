BASE = "All inputs, unbounded, over the SSA of /repo's current source; trusts govc, the SMT solvers and the listed standard-library models. "
CLAIMED = {
 "C01": BASE + "parseHeader and ParseUint are verified in full.",
 "C02": BASE + "Every encoder reachable from ISCSICommand.Bytes is verified in full.",
 "C03": BASE + "SBCReadWrite, SBCVerify, SBCUnmap and all they call are verified against an assumed contract of the backing store.",
 "C04": BASE + "SBCReadWrite and SBCVerify with all they call are verified against a contract of the backing store, which the file and the remote store are verified to meet over assumed contracts of os.File and of the remote server.",
 "C05": BASE + "The write paths, SBCSyncCache, DataSync of the file and the remote store and Fdatasync are verified over assumed contracts of os.File, of the system calls and of the remote server.",
 "C06": BASE + "BuildSenseData and every operation of the command table are verified against a store that may fail at any operation.",
 "C07": BASE + "The command table built by the initialisation of the package, for all 256 operation codes and their service actions, and the routing of a command to its logical unit are verified in full.",
 "C08": BASE + "READ CAPACITY(10) and (16), MODE SENSE, the initialisation of a logical unit and its resizing are verified in full.",
 "C09": BASE + "Every operation of the command table is verified for every protected logical unit.",
 "C10": BASE + "txHandler, from the response to the PDUs handed to the connection, is verified in full over the verified encoding of C02 and an assumed connection.",
 "C11": BASE + "The handling of write commands and of Data-Out PDUs and the R2T built for them are verified for every write, from any state of the write that its invariant allows.",
 "C12": BASE + "The initial parameters, processLoginData, processSecurityData, the login state machine and the login response are verified for every text and every offered value, over an arbitrary decoded text (the decoding is C15) and an assumed sort.",
 "C13": BASE + "The allocation and binding of session handles are verified in full.",
 "C14": BASE + "The command queue, the pending tasks and the hand-over of a received command are verified for queues of any length, over the verified contract of taking a task from the queue; executing a task is replaced by a record of it.",
 "C15": BASE + "ParseKVText and MarshalKVText are verified for texts and lists of any length against a recursive description of the text.",
 "C16": BASE + "The operations on the LUN map and its initialisation from the configuration or by an embedding program are verified in full.",
 "C17": BASE + "Every PERSISTENT RESERVE OUT service action, and the reservation operator under it, are verified over lists of any length; PREEMPT over the verified contract of the removal.",
 "C18": BASE + "Every handler of the command table is verified free of panics for every CDB and every buffer, and so are the decoding of headers and of text, the encoding of responses and the iSCSI layer around a command.",
 "C19": BASE + "REPORT LUNS, INQUIRY with all its pages and MODE SENSE of one page and of all pages are verified in full.",
 "C20": BASE + "UpdateStats and Stats, the response that carries what is counted and the counting of each response once in txHandler are verified in full.",
 "C21": BASE + "The pending-task list and the task management functions are verified in full.",
 "C22": BASE + "Every function of the port and of the SCSI layer that takes a lock is verified; the body of a goroutine in the state in which it is started.",
 "C23": BASE + "BindISCSISession, the lookup and creation of sessions under it, and the lookup of a portal are verified for all tables of targets and sessions, over the contract of the allocation of session handles (verified as C13).",
 "C27": BASE + "rxHandler, scsiCommandHandler, txHandler and handler are verified, each over the verified contracts of the others.",
 "C28": BASE + "The connection's initialisation, the login, rxHandler and txHandler are verified to keep the invariant that ties the phase of a connection to its session.",
}
NOT_APPLICABLE = {
 "C24": "Interleavings of goroutines are outside what a sequential deductive verifier decides; the per-goroutine part (locks) is C22.",
 "C25": "encoding/json marshals by reflection, which no contract within reach can describe faithfully.",
 "C26": "The HTTP router is driven by reflection and net/http, outside the reach of the contracts.",
}
