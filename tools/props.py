import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[o.strip() for o in observe.split(",")],"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/file_formats/module/mod.rs"; D="src/file_formats/module/digest.rs"; Z="src/file_formats/module/zip.rs"
E="src/file_formats/elf/mod.rs"; ED="src/file_formats/elf/digest.rs"; SB="src/signing_block/mod.rs"; V2="src/signing_block/scheme_v2.rs"; SS="src/signing_block/source_stamp.rs"
AL="src/signing_block/algorithms.rs"; ES="src/signing_block/elf_section_info.rs"; SG="src/signer.rs"; SA="src/signable.rs"; KS="src/keystore.rs"; VE="src/verifier.rs"
CS="src/cli/sign.rs"; CD="src/cli/digest.rs"; CV="src/cli/verify.rs"; CI="src/cli/info.rs"; CO="src/cli/output.rs"; CM="src/common.rs"; UT="src/utils.rs"
p("C01","Module content digest is exact or an error",
 "The content digest of a module, through the library or the digest command, is the APK Signature Scheme v2 chunked digest of its ZIP entries, central directory and end-of-central-directory record (with the directory offset as if no signing block were there), whatever else the file contains. It does not depend on how the operating system cuts the reads into pieces or interrupts them, nor on whether the module is already signed. If the file cannot be read completely, or ends early, the result is an error and never a digest of other bytes.",
 ["inputs","fault_sequences"],"every ZIP layout (empty to several chunks, comments, trailing data, decoy markers), both hash algorithms, signed or not; every sequence of short, interrupted and failing reads and every point at which the file shrinks or grows",
 "the tests digest a few fixtures through undisturbed local reads that always return whole buffers; none controls read splitting, errors or truncation",
 [D,M,Z,"src/signing_block/digest.rs"],[("chunked digest",D),("region layout",M),("end of central directory search",Z)],"library digest calls, the digest command's output")
p("C02","ELF section digest is exact or an error",
 "The digest of an ELF file is the chunked digest of exactly the selected sections (by default code and read-only data) in the order they have in the file, for 32- and 64-bit files of either byte order; a selected section that does not exist or has no bytes leads to an error, not to a digest of something else. It does not depend on how reads are cut into pieces or interrupted, nor on whether the file is already signed. If a section cannot be read completely the result is an error.",
 ["inputs","fault_sequences"],"every section layout (order in file, overlap-free placement, empty and no-bits sections, alignments, table before or after data), every section selection, every sequence of read faults",
 "the tests build two or three tiny ELF files and read them without faults",
 [ED,E],[("section selection",E),("section digest",ED)],"library digest calls, the digest command's output")
p("C03","A successful signing yields a valid, complete signature",
 "When signing a module or ELF file reports success, an independent reader of the written file finds exactly one v2 signer whose certificate, public key and signature are those of the given credentials, with their full certificate chain, whose signature verifies over the signed data and whose digest is that of the file's content; a requested source stamp is there too, and likewise valid. Signing a well-formed file with usable credentials succeeds unless the result would exceed the limits of the formats.",
 ["inputs","configurations","fault_sequences"],"every well-formed ZIP and ELF file, P-256 and P-384 credentials with any chain, every combination of stamp and options, every benign fault sequence (short and interrupted calls) and every failing one",
 "the tests sign a handful of fixtures and check little more than that a block exists; they do not check the result with an independent implementation nor under faults",
 [SG,M,E,V2,SS,AL,CS],[("signer",SG),("module signing",M),("ELF signing",E),("signed data encoding",V2)],"the file written by signing, the exit status")
p("C04","Signing a ZIP preserves its content and replaces old signatures",
 "A signed module contains every byte of the original: entries, central directory, end record with comment and whatever follows it are unchanged except for the directory offset, which points at the moved central directory. However often and with whatever credentials a module is signed again, it contains exactly one signing block, that of the latest signing, directly before the central directory, and removing it gives back the original file.",
 ["inputs","histories"],"every ZIP layout, including data that looks like signing blocks or end records; every history of signing, signing in place, stamping, stripping and copying",
 "the tests sign one small archive once or twice; the layouts and re-signing histories are unbounded",
 [M,Z,CS],[("insertion of the block",M),("offset of the central directory",Z)],"the file written by signing, the stripped module")
p("C05","Signing an ELF preserves every section and program byte",
 "A signed ELF file still contains every section of the original with the same name, type, flags, address and content, its program headers and the bytes they refer to at the same place, and exactly one signing section, which holds the latest signature. Signing again replaces that section, however often it is done, and never touches another one.",
 ["inputs","histories"],"every section layout, class and byte order; every history of signing and re-signing",
 "the tests use two or three generated ELF files and compare only selected sections",
 [E,ES],[("rewriting of the section table",E)],"the file written by signing")
p("C06","Output files are replaced whole or not at all",
 "Whatever happens while the sign command or the digest dump writes its output - an I/O error, a full disk, the process being killed at any point, power loss - the output path holds either what it held before or the complete new result, to every concurrent observer and after a restart; this includes signing a file in place and several signers with the same output. The input file and all other files are never changed, a replaced output keeps its permissions, and a command that comes to an end leaves no further file behind.",
 ["crash_points","fault_sequences","schedules"],"every system call of the operation as crash, kill, error or preemption point; outputs that are new, existing, the input itself or reached through a link",
 "the tests never fail a write, never kill the process and never look at the output while it is being written",
 [CO,CS,CD],[("replacement of the output",CO)],"the directory contents at each system call, after a crash, and after the command")
p("C07","A failure or damaged block is reported, never taken for success",
 "A damaged signing block is reported as an error by everything that reads the block, and a module with one is never treated as unsigned and signed over. An operation whose reads, writes, seeks or other system calls fail does not report success unless its complete result is there. The command line program ends with status 0 exactly if the operation succeeded, and with a message and a non-zero status otherwise.",
 ["inputs","fault_sequences"],"every damage to a signing block or its surroundings that an independent reader recognises; every failing system call at every position",
 "the tests cover a few missing-file and bad-argument errors; no test fails a system call or damages a block systematically",
 [M,SB,E,CS,CD,CI,"src/main.rs"],[("block detection",M),("block parsing",SB),("exit status","src/main.rs")],"results of library calls, exit status of the program")
p("C08","No input or fault makes it panic, hang or exhaust memory",
 "For every file content, damaged or hostile, and for every failure of a system call on its files, each operation of the library and the program ends after a bounded number of system calls, in memory proportional to the size of its files, with a result or an error, and never panics.",
 ["inputs","fault_sequences"],"every field of ZIP end records, signing blocks, signers, ELF headers, section tables, PEM, PKCS#8 and PKCS#12 files set to extreme values, cut or extended; every failing system call",
 "hostile field values and failing calls are unbounded; the tests use well-formed fixtures",
 [M,Z,E,SB,V2,SS,ES,CM,UT,KS],[("length-prefixed parsing",CM),("block parsing",SB),("ELF parsing",E)],"any library call or command on the file")
p("C09","Verification accepts only what a trusted signer signed",
 "The verify command and the library's verification accept a module only if the present content was signed with the key of a certificate that chains, at the current time and for code signing, to the given root, and if every v2 signer and the source stamp present in it are valid and trusted; no forged, transplanted, stripped, reordered or altered signature, signer, digest or certificate makes it accept. A signature that does not verify is never called valid.",
 ["inputs","histories","configurations"],"every history of signing and forging by parties without the trusted key, every clock value, every damage",
 "the tests verify one fixture; they cannot enumerate forgeries nor control the clock",
 [VE,CV,AL],[("signer verification",VE),("verdict",CV)],"verdict of the verify command and library")
p("C10","Verification accepts every correctly signed module",
 "A module just signed with credentials that chain to the given root, carry the code-signing usage and are valid at the current time verifies successfully, with and without source stamp, however reads are cut up or interrupted; it stops verifying exactly when the clock leaves the certificates' validity period.",
 ["inputs","configurations","fault_sequences"],"every well-formed module, chain length up to three certificates, both key types, clock before, inside and after the validity period, benign read faults",
 "the tests verify one fixture at one time",
 [VE,CV],[("certificate chain verification",VE),("clock",VE)],"verdict of the verify command and library")
p("C11","Source stamp names the right content, signer and time",
 "A source stamp added while signing, or to an already signed file, is signed by the stamp credentials over the digests of that file's content and carries the time of stamping when a timestamp is asked for; adding it leaves the v2 signature and all other parts of the signing block intact and replaces an earlier stamp. A clock that cannot be represented leads to an error and not to a wrong time.",
 ["histories","inputs","configurations"],"every history of signing and stamping modules and ELF files, every clock value including jumps and times before 1970",
 "the tests stamp once at the present time",
 [SS,SG,SA],[("stamp signing",SG),("stamp encoding",SS)],"stamp in the written file")
p("C12","Signing blocks obey the format and are read back as written",
 "Every signing block that is written has consistent sizes and magic, pairs that fill it exactly, lengths that match their contents, at most one padding pair, none if padding is turned off, and, when it is asked for, a size that is a multiple of 4096; the library reads it back, and parsing and serialising again gives the same bytes. What would not be readable is refused instead of written.",
 ["inputs","configurations"],"block sizes around every limit (padding boundary, 16-bit and 32-bit lengths, maximum block size), unknown pairs, any number of certificates, attributes and sections",
 "the tests round-trip a few small blocks and no size near a limit",
 [SB,V2,SS,ES,CM,M,E],[("serialisation",SB),("padding",SB),("limits",M)],"bytes of the block in the written file")
p("C13","The digest dump is exact or an error",
 "The dump written by the digest command contains exactly the bytes that are digested, in that order, for modules and ELF files, and reports success only if all of them are in the file.",
 ["inputs","fault_sequences"],"every module and ELF layout and section selection, every read and write fault",
 "the tests do not fail reads or writes and compare no large dump",
 [CD,ED,D,CO],[("dump",CD)],"the dump file")
p("C14","A module object answers by its file, in any order of calls",
 "However the calls on an opened module are ordered and repeated - digest, regions, offsets, signing block, stripping, signing in memory, writing - each gives the answer that the same call gives on a freshly opened object: digests and stripping refer to the file's content, the signing block is the latest one, and writing produces the original content with exactly that block.",
 ["histories","fault_sequences"],"every sequence of calls on one object, on signed, unsigned and raw modules, with read and write faults in between",
 "the tests call one or two methods on each object",
 [M,SA],[("cached block",M)],"results of library calls")
p("C15","Concurrent operations do not influence each other",
 "Any number of signing, digesting, dumping and inspecting operations that run at the same time, on the same or different files, each behave as if run alone on the content they read: nobody sees or produces a mixture, a temporary file of one is never used by another, and of several signers with the same output one complete result remains.",
 ["schedules"],"every interleaving of up to four actors at system call granularity, in one process or with their process ids",
 "the tests run one operation at a time under the operating system's scheduler",
 [CO,CS,CD,SG],[("temporary file name",CO)],"results and files of each operation")
p("C16","Credentials are loaded exactly or not at all",
 "Keys and certificates read from PEM, encrypted PKCS#8 and PKCS#12 files are exactly those in the file - key, first certificate and the rest of the chain in order, whatever text and other objects surround them - or the operation fails. A wrong or missing password, an unreadable or incomplete file never leads to a signature or to other credentials being used.",
 ["inputs","fault_sequences","configurations"],"key formats, chain lengths, surrounding text and line ends, passwords; every read fault while loading",
 "the tests load one or two fixtures per format and never with a failing read",
 [KS,CS],[("key loading",KS)],"signatures made with the credentials, error of the command")
p("C17","The JSON form of parsed structures carries all their data",
 "Serialising a parsed signing block or any of its parts to JSON and reading it back gives an equal structure.",
 ["inputs"],"every signing block",
 "the tests serialise one fixture",
 [SB,V2,SS,ES],[("serde derivation",SB)],"JSON text of a structure")
p("C18","info shows the signing block that verification uses",
 "The info command describes exactly the signing block that verification of the same file uses: its place and size in the file, the parts it contains and the certificates of its signers, for modules and ELF files alike. A file that is unsigned, damaged or not a module at all is reported as an error, whatever bytes resembling a signing block it contains.",
 ["inputs","histories","fault_sequences"],"every module and ELF layout, signed or not, with data that looks like signing blocks; every history of signing and forging; read faults and files that are replaced in between",
 "the tests never run the command; the layouts with decoys are unbounded",
 [CI,SA,E,M],[("description of the block",CI),("block lookup",SA)],"what the info command prints, its exit status")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
T="deterministic simulation with fault injection: seeded search over simulated file system, clock, scheduler, faults and crashes, judged by an independent reference implementation"
note={
"C06":"every run records the output path after every simulated system call and after kill or power loss at a seeded call; sampled, not exhaustive",
"C15":"preemption at system calls only, up to 4 actors; sampled schedules",
"C09":"library and program compiled with verification against a path-validation crate wrapped to the interface the repository needs (the git dependency is unavailable offline); forgeries from a list of kinds combined with damage and histories",
"C10":"as C09","C18":"as C09; certificates are compared by subject and length as printed"}
chk=[{"property":x["id"],"quick_cmd":f"./run.sh {x['id']} --tier quick","thorough_cmd":f"./run.sh {x['id']} --tier thorough","evidence_file":f"evidence/{x['id']}.json","technique":T,"level":"exploration","level_note":note.get(x["id"],"seeded random search over generated histories, inputs and injected faults; bounds in DESIGN.md; sampled, not exhaustive")} for x in P if x["id"]!="C17"]
NA=[{"property":"C17","reason":"a pure in-memory conversion derived by macros: no I/O, time, concurrency or multi-party behaviour for a simulator to control, so simulation would only be input sampling"}]
json.dump({"version":1,"setup_cmd":"./run.sh build && ./run.sh buildverify","hooks":{"guard":"none: no hooks were needed; system calls are intercepted at the C library boundary by symbols of the simulator executable","enable":"nothing to enable","source_commits":[]},"checks":chk,"not_applicable":NA,"notes":"fix: commits in /repo repair genuine defects found by the checks; see known-findings.txt and DESIGN.md"},open('/verif/MANIFEST.json','w'),indent=1)
