#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be edited as text."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None,
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

NOFLU = "The flu package has no tests at all, so no upload, download or discovery is ever executed by the suite."

p("C01", "An uploaded chunk reassembles to exactly its bytes",
  """A peer that opens a transfer of a chunk this host holds and acknowledges every packet it gets receives, over a
  network that loses nothing: an opening packet announcing the chunk's exact length and SHA-1, data packets that
  together carry every byte of the chunk exactly once at its right offset, and then an end marker. This holds for every
  file size, chunk size, chunk index, window cap of at least 1, and order or timing of the acknowledgements.""",
  ["inputs", "schedules"], "all files of at least 1 byte, chunk geometries, held chunks, window caps >= 1, and orders/delays/batchings of acks on a lossless network",
  NOFLU, ["flu/senderConnection.go", "flu/serverStartUpload.go", "flu/serverContinueUpload.go", "common/chunkReader.go", "catalogue/indexRecord.go"],
  [("opening packet with hash and size, then window-limited reads", "flu/senderConnection.go kickstart, kick"), ("section reader over the chunk", "catalogue/indexRecord.go getChunkReader")],
  ["UDP packets sent by the daemon's socket to the downloading peer"],
  [("windowSize", "packets sent and not yet acked", "flu/senderConnection.go"), ("reader offset", "next byte to send", "common/chunkReader.go")])

p("C02", "No chunk is recorded as downloaded unless its bytes were verified",
  """Whenever the catalogue lists a chunk of a download as available, the file's bytes in that chunk's range are bytes whose
  SHA-1 and length are those the sending peer announced for it. This holds
  whatever packets are lost, duplicated, reordered, corrupted or cut off on the way, and however often it is retried.""",
  ["fault_sequences", "histories"], "all loss/duplication/reordering/corruption/truncation patterns on data packets and acks, all chunk sizes",
  NOFLU, ["flu/serverStartDownload.go", "flu/recvConnection.go", "catalogue/catalogue.go"],
  [("hash comparison before saving", "flu/serverStartDownload.go downloadChunk"), ("length check", "catalogue/indexRecord.go saveChunk")],
  ["catalogue listing (progress) together with the bytes of the destination file"])

p("C03", "A requested download completes with the exact bytes asked for",
  """Once a download has been requested and a peer that holds the file answers, and after packet faults stop, the download
  completes within a bounded number of further retrieval attempts without any user action. Then the destination file is
  byte for byte the file with the requested SHA-1 (no missing, extra or misplaced bytes) and the catalogue lists
  every chunk as available. If the chunks that peers sent make up a file with another SHA-1, the download does not remain
  in the catalogue as if it were the file.""",
  ["fault_sequences", "inputs", "schedules"], "all file sizes and chunk geometries of at least 1 byte, finite sequences of packet faults and failed attempts, one or several peers each holding all or part of the file",
  NOFLU, ["flu/serverStartDownload.go", "flu/recvConnection.go", "catalogue/catalogue.go"],
  [("retry loop over missing chunks", "flu/serverStartDownload.go StartDownload"), ("chunk write at its offset", "catalogue/indexRecord.go saveChunk")],
  ["destination file", "catalogue listing", "transfer requests seen by the peer"])

p("C04", "No datagram from the network can stop the daemon",
  """No sequence of datagrams arriving at the daemon's UDP port, from any number of peers and in any interleaving, ends the
  process, panics, or leaves it unable to answer. After any such sequence it still answers a well-formed discovery
  request, file-list request and transfer request correctly, and its catalogue is unchanged.""",
  ["inputs", "histories", "schedules"], "all byte strings up to the daemon's datagram size, all sequences and concurrent interleavings of well-formed and malformed messages, including for files that do not exist",
  "parse_test.go feeds five well-formed messages to the parser; nothing feeds the server, and no malformed input is ever tried.",
  ["flu/server.go", "flu/messages/parse.go", "flu/messages/utils.go", "flu/serverListFilesOnHost.go", "flu/serverDiscoverHosts.go", "flu/serverStartUpload.go", "flu/serverContinueUpload.go", "main.go"],
  [("message dispatch", "flu/server.go HandleMessage"), ("bounds-checked reads", "flu/messages/utils.go byteReader")],
  ["process liveness", "replies to probe requests", "catalogue listing"])

p("C05", "A hostile sending peer cannot crash the downloader or damage its files",
  """Whatever a peer replies to a file-list request or sends on a transfer connection, the downloading daemon does not
  panic or hang, and writes nothing except the verified bytes of the requested chunk within that chunk's range of the
  download's own file. Chunks received before, other downloads and shared files keep their bytes, and, unless a peer
  forged the file's metadata or a whole chunk consistently, the download still completes when an honest peer serves it.""",
  ["inputs", "histories", "fault_sequences"], "all metadata replies (names, sizes, chunk sizes, counts, hashes) and all packet sequences on the transfer connection",
  NOFLU, ["flu/serverStartDownload.go", "flu/messages/msgDataPacket.go", "flu/recvConnection.go", "catalogue/catalogue.go"],
  [("opening-packet and offset validation", "flu/serverStartDownload.go downloadChunk"), ("metadata validation", "catalogue/catalogue.go RegisterDownload")],
  ["process liveness", "bytes of all files in the downloads directory and of shared files", "catalogue listing"])

p("C06", "Downloads stay inside the downloads directory, in files of their own",
  """Whatever file name a peer supplies, registering and running a download creates and writes files only directly inside
  the configured downloads directory (plus the catalogue's own directory), or fails with an error and creates no
  catalogue entry. A download never writes to a path that already existed when it was registered, and no two
  catalogue entries for different contents share a destination path.""",
  ["inputs", "histories"], "all file-name byte strings up to 255 bytes, all sizes and chunk sizes, all sequences of registrations with colliding names, pre-existing files and links in the directory",
  "No test registers a download.", ["catalogue/catalogue.go", "catalogue/indexRecord.go"],
  [("name validation and unused path", "catalogue/catalogue.go RegisterDownload, unusedPath")],
  ["file system tree before and after", "paths in the catalogue listing"])

p("C07", "Discovery replies advertise exactly the chunks that are held",
  """A reply to a discovery request carries that request's ID and this host's own address and port. Its chunk list
  consists of inclusive ranges that are all held. When no chunks were asked for, or they were asked for as sorted ranges
  with gaps between them, the list is sorted and disjoint, all of it was asked for, and if the held (and asked-for)
  chunks form at most 127 ranges it covers all of them. A request for no file, or for a file that
  is unknown here, is answered with an empty list.""",
  ["inputs", "histories"], "all progress states (including many small gaps), all request IDs, all requested range lists, known, unknown and blank hashes",
  NOFLU, ["flu/serverDiscoverHosts.go", "flu/messages/msgDiscoverHosts.go", "common/bitset/bitset.go"],
  [("overlap/ranges of the progress set", "flu/serverDiscoverHosts.go RespondToDiscoverHosts"), ("count-limited encoding", "flu/messages/msgDiscoverHosts.go")],
  ["UDP reply to the requesting host"])

p("C08", "Remote file listings are accurate, complete or an error",
  """A host's reply to a file-list request lists each indexed file exactly once (or just the one asked for, or nothing if
  that is unknown) with its exact size, chunk count, chunk size, number of available chunks, SHA-1 and base name, under
  the request's ID. The requesting side returns exactly those entries, for every number of files, or an error: never
  a partial or altered list.""",
  ["inputs", "histories"], "all catalogue contents (0 to thousands of files, all name lengths up to 255 bytes, all progress states), filtered and unfiltered requests",
  NOFLU + " parse_test.go encodes two entries.", ["flu/serverListFilesOnHost.go", "flu/messages/msgListFiles.go", "flu/messages/parse.go", "cli/cliMethodsList.go"],
  [("response construction", "flu/serverListFilesOnHost.go RespondToListFilesOnHost"), ("request with timeout", "flu/serverListFilesOnHost.go ListFilesOnHost")],
  ["UDP reply", "result of the listing call and of the CLI's list method"])

p("C09", "Each discovery gets exactly the replies addressed to it",
  """Any number of discoveries may run at once; each returns exactly the replies that carry its own request ID and were
  accepted while it was collecting, each once and unaltered, and never another discovery's. A reply for a request that
  is not waiting is refused with an error; no timing of replies, including a flood just as a discovery times out, blocks
  the daemon or any other or later discovery.""",
  ["schedules", "histories"], "all numbers of concurrent discoveries, reply counts, reply timings relative to the collection window, duplicate/unknown/late IDs",
  NOFLU, ["flu/server.go", "flu/serverDiscoverHosts.go"],
  [("request ID to channel map", "flu/server.go registerResponseChan, deliverResponse, unregisterResponseChan"), ("monotone request IDs", "flu/server.go generateRequestID")],
  ["HandleMessage results", "DiscoverHosts results", "broadcast requests on the wire"],
  [("resMap", "requests awaiting replies", "flu/server.go")])

p("C10", "Every protocol message survives encoding and decoding unchanged",
  """For every message of the protocol whose fields fit the wire format, decoding its encoding yields an equal message of
  the same type: all request IDs, hashes, addresses, ports, chunk lists of up to 255 numbers, windows, offsets, data,
  and file entries with names of up to 255 bytes. A longer chunk list or name is cut, never garbled: what is decoded is a
  leading part of it, and all other fields are intact.""",
  ["inputs"], "all field values of all seven message types",
  "parse_test.go checks one to three hand-picked values per type, and neither data packets nor acks at all.",
  ["flu/messages/msgDiscoverHosts.go", "flu/messages/msgListFiles.go", "flu/messages/msgConnection.go", "flu/messages/msgDataPacket.go", "flu/messages/parse.go", "flu/messages/utils.go"],
  [("Serialize / Parse pairs", "flu/messages")], ["messages.Parse, ParseAsDataPacket and Serialize results"])

p("C11", "The message parser is total",
  """For every byte string, decoding returns either a message or an error: it never panics, never modifies the input, and
  gives the same result every time. An input that ends before the fields it announces are complete yields an error,
  as does an unknown type; a decoded message depends only on the bytes of the input.""",
  ["inputs"], "all byte strings of 0 to 65535 bytes, in particular all truncations and corruptions of valid messages and inconsistent element counts",
  "parse_test.go only parses well-formed messages.", ["flu/messages/parse.go", "flu/messages/utils.go", "flu/messages/msgDataPacket.go"],
  [("overrun tracking", "flu/messages/utils.go byteReader")], ["messages.Parse and ParseAsDataPacket results"])

p("C12", "A bitset behaves as a set of integers with a size",
  """After any sequence of set, unset, fill, copy, union and intersect operations, membership, count, size and fullness
  agree with a mathematical set under the same operations: setting or unsetting one index affects no other, size only
  grows and covers every member, and full means every index below size is a member. Copies, unions and intersections
  are independent of their sources, a union has the larger and an intersection the smaller of their sizes, and
  out-of-range queries are safely false.""",
  ["inputs", "histories"], "all operation sequences over all indices and sizes, including word boundaries and unset of unset indices",
  "bitset_test.go samples one fixed random sequence of Set/Get and always unsets an index it has just set.",
  ["common/bitset/bitset.go"], [("word-wise bit operations", "common/bitset/bitset.go")],
  ["Bitset methods"], [("data,size", "words and logical size", "common/bitset/bitset.go")])

p("C13", "Serialized bitsets restore exactly, and damaged ones are rejected",
  """Deserializing the serialization of any bitset yields a bitset with the same size, members, count and fullness, for
  every size including 0 and however it was built. Deserializing any other byte string returns either an error or
  a consistent bitset (every method works, count never exceeds size, and it re-serializes to the same bytes): it never
  panics.""",
  ["inputs"], "all bitsets; all byte strings, in particular truncations, extensions and bit flips of valid serializations",
  "TestSerialization only round-trips sparse random sets of sizes 9 to 9999 and never feeds damaged data.",
  ["common/bitset/bitset.go"], [("Serialize/Deserialize", "common/bitset/bitset.go")], ["Serialize and Deserialize results"])

p("C14", "Range queries partition the index space exactly",
  """For every bitset of up to 65536 indices, the listed filled ranges and unfilled ranges are each sorted, disjoint,
  maximal, and together cover every index below its size exactly once, a filled index in a filled range and vice versa.
  The overlap with a list of requested ranges contains exactly the requested indices that are set, and the first n
  unfilled items are exactly the n smallest unset indices below size.""",
  ["inputs"], "all bitsets with indices below 65536 (up to and including index 65535), all range lists and counts",
  "TestOverlap and TestRanges cover 14 hand-written sets of at most 10 indices; filled Ranges() is never tested.",
  ["common/bitset/bitset.go", "common/range.go"], [("filledRanges, UnfilledRanges, UnfilledItems", "common/bitset/bitset.go")],
  ["Ranges, Overlap, UnfilledRanges, UnfilledItems results"])

p("C15", "The catalogue survives restarts exactly",
  """After any sequence of completed share, unshare, register-download and save-chunk operations, opening the same
  catalogue directory again (also after it was copied or moved elsewhere) lists exactly the same files with the same
  path, size, SHA-1, chunk size and set of available chunks as before closing. Opening it changes nothing, further
  operations behave as if it had never been closed, and they touch only the directory it was opened at.""",
  ["histories", "inputs"], "all operation sequences, numbers of files, path names, sizes and progress states, with any number of re-openings in between",
  "TestMarshalling encodes two records in memory and TestInit opens an empty directory; nothing is ever re-opened.",
  ["catalogue/catalogue.go", "catalogue/indexFile.go", "catalogue/indexRecord.go", "catalogue/progressFile.go"],
  [("index saved on every change", "catalogue/indexFile.go save"), ("progress saved per chunk", "catalogue/progressFile.go save")],
  ["ListFiles/Contains of a fresh catalogue on the same directory"])

p("C16", "Killing the daemon at any instant leaves a usable, truthful catalogue",
  """If the process is killed at any point during any catalogue operation, the catalogue directory can afterwards be
  opened and every operation works, its state is the one before or the one after the interrupted operation, and operations
  that had completed before are all still in effect. Every chunk it lists as available really is in the file on disk.""",
  ["crash_points"], "all instants between and during the file-system operations of open, share, unshare, register-download and save-chunk (process crash; not power loss)",
  "No test interrupts an operation or opens a catalogue that another process left behind.",
  ["catalogue/catalogue.go", "catalogue/indexFile.go", "catalogue/progressFile.go", "catalogue/writeFile.go"],
  [("write to temporary, then rename", "catalogue/writeFile.go"), ("progress file before index record; data before progress", "catalogue/catalogue.go, catalogue/indexFile.go")],
  ["fresh catalogue opened on the directory after the kill"])

p("C17", "Concurrent catalogue operations behave as if one at a time",
  """Under any number of concurrent callers, every catalogue operation appears to take effect atomically at one instant
  between its call and its return: the results of all of them are those of some sequential order. No operation blocks
  forever, and after all have returned the state on disk is the state in memory.""",
  ["schedules", "histories"], "all interleavings of share, unshare, register-download, save-chunk, list, contains, completeness, missing-chunk and chunk-read calls from any number of goroutines",
  "No test calls the catalogue concurrently, or at all.", ["catalogue/catalogue.go", "catalogue/progressFile.go"],
  [("catalogue mutex around every public method", "catalogue/catalogue.go")], ["results of the catalogue's methods with call and return times"])

p("C18", "The daemon is free of data races",
  """While any mix of CLI calls, incoming datagrams, uploads and downloads runs concurrently, no two goroutines of the
  daemon access the same memory without synchronisation when at least one of them writes.""",
  ["schedules"], "all interleavings of CLI methods, message handling, uploads to several peers, downloads and discoveries in one process",
  "The suite is single-threaded and is not run with the race detector.",
  ["flu/server.go", "flu/senderConnection.go", "flu/serverStartUpload.go", "flu/serverContinueUpload.go", "flu/serverStartDownload.go", "catalogue/catalogue.go", "cli/cliMethods.go"],
  [("resMapLock, transferLock, uploadLock, reqIDLock, catalogue lock", "flu/server.go, catalogue/catalogue.go")], ["race detector reports"])

p("C19", "Identical content is indexed once, and failed operations change nothing",
  """The catalogue never holds two entries with the same SHA-1: sharing or registering content that is already indexed
  fails with an error that names the indexed path. Any catalogue operation that returns an error, whatever the cause
  (duplicate, missing or unreadable file, invalid metadata, or a failing disk), leaves the listing as it was, both
  immediately and after re-opening.""",
  ["inputs", "histories", "fault_sequences"], "all operation sequences with duplicate contents under different names; an I/O error or a full disk at every file-system operation",
  "No test shares a file.", ["catalogue/catalogue.go", "catalogue/indexFile.go", "catalogue/writeFile.go"],
  [("duplicate check and roll-back", "catalogue/indexFile.go AddIndexRecord, RemoveIndexRecord"), ("progress roll-back", "catalogue/catalogue.go SaveChunk")],
  ["operation errors", "listing before, after, and after re-opening"])

p("C20", "Clean removes exactly the stale entries; user files are never touched",
  """Cleaning removes from the index exactly those completely available files that are now missing or whose current content
  has another SHA-1, keeps every other complete file and every partially downloaded one whose file exists, and reports
  each entry with what was done and its indexed and current hash. Sharing, unsharing, cleaning, listing and serving
  never create, modify or delete a user's file.""",
  ["histories", "inputs"], "all sets of shared and partially downloaded files and all modifications, replacements, truncations and deletions of them before cleaning",
  "Nothing in cli is tested.", ["cli/cliMethodsClean.go", "catalogue/catalogue.go", "common/utils.go"],
  [("rehash and compare", "cli/cliMethodsClean.go Clean"), ("index-only removal", "catalogue/catalogue.go UnshareFile")],
  ["clean's report", "catalogue listing", "user files before and after"])

p("C21", "Finished and abandoned transfers release their resources",
  """After any number of uploads and downloads have completed, failed or been abandoned by the other side, the daemon's
  open files, sockets and goroutines return to the level before them within a bounded idle time. The number of transfers
  a daemon can carry out over its lifetime is not limited by such resources.""",
  ["histories", "fault_sequences"], "all sequences of completed, refused, failed, re-opened and abandoned transfers, in either direction",
  NOFLU, ["flu/senderConnection.go", "flu/recvConnection.go", "flu/serverStartUpload.go", "catalogue/indexRecord.go", "common/chunkReader.go"],
  [("worker exit and reader close", "flu/senderConnection.go"), ("Close of the receiving connection", "flu/recvConnection.go")],
  ["open descriptors and goroutine count of the process"])

p("C22", "An interrupted download resumes without losing or repeating work",
  """If the daemon stops during a download and the download is requested again after a restart, every chunk that was
  available before is still available with the same bytes, no such chunk is requested from any peer again, and the
  download completes to the exact file. Requesting a file that is already complete requests no chunk and changes
  nothing.""",
  ["crash_points", "histories"], "all sets of already available chunks, all stop instants between chunks, repeated restarts",
  NOFLU, ["flu/serverStartDownload.go", "catalogue/catalogue.go", "catalogue/progressFile.go"],
  [("missing-chunk selection from persisted progress", "flu/serverStartDownload.go, catalogue/progressFile.go")],
  ["transfer requests seen by peers", "destination file", "catalogue listing"])

p("C23", "Content hashes convert to and from text and bytes without loss",
  """For every 20-byte hash, its text form is 40 hexadecimal digits that parse back to the same hash, in either letter
  case, and its byte forms convert back likewise. Every other text or byte string of the wrong length is refused with an
  error, leaving the target unchanged, and exactly the all-FF hash counts as blank.""",
  ["inputs"], "all hashes, all strings and byte slices",
  "No test exercises the hash type's conversions except one valid constant.", ["common/sha1Hash.go"],
  [("hex encoding with length checks", "common/sha1Hash.go")], ["Sha1Hash methods"])

p("C24", "A file's chunks partition it exactly and its hash is its SHA-1",
  """The SHA-1 indexed for a shared file is that of its whole content, its size is exact, and its number of chunks is its
  size divided by the chunk size, rounded up, and at most 65536, as many as the protocol can number. Reading all chunks in index order yields exactly the file's bytes: every
  chunk has the full chunk size but the last, which has the rest; each reader's size and hash are those of its bytes,
  its offsets count the bytes read before, and it can be rewound.""",
  ["inputs"], "all file contents and sizes (0, 1, around multiples of the chunk size and of read-buffer sizes), all chunk sizes, all read-buffer sizes",
  "TestChunkReaderHashMatching covers three sizes below 2 KB, at offset 0 and with one chunk.",
  ["common/utils.go", "common/chunkReader.go", "catalogue/indexRecord.go", "catalogue/progressFile.go"],
  [("streaming hash", "common/utils.go HashFile"), ("section per chunk", "catalogue/indexRecord.go getChunkReader"), ("rounded-up chunk count", "catalogue/progressFile.go newProgressFile")],
  ["share result, listing and chunk readers"])

p("C25", "CLI commands report the daemon's state faithfully and cannot crash it",
  """Every CLI request gets a reply or an error, whatever its arguments, and the daemon keeps running. What share and list
  return is what the catalogue (or the remote host) holds, and what is printed states it correctly for every
  possible result, including empty files and partial downloads, with the integrity percentage rounded down from
  available/total chunks.""",
  ["inputs", "histories"], "all arguments (paths, addresses of both families, hashes), all catalogue states and remote replies",
  "Nothing in cli is tested.", ["cli/cliClient.go", "cli/cliMethodsList.go", "cli/cliMethodsShare.go", "cli/cliMethodsGet.go", "cli/cliMethodsChims.go", "cli/cliMethodsClean.go"],
  [("RPC methods", "cli/cliMethods*.go"), ("printing", "Sprintf methods")], ["RPC results and printed text", "daemon liveness"])

p("C26", "Saving a chunk affects that chunk only",
  """Saving a chunk of the right length writes exactly its range of the destination file and makes exactly that chunk
  available; every other byte and every other chunk's availability stay as they were, in any order of saves and however
  often repeated. A chunk index that does not exist, or data of another length, is refused with an error and changes
  nothing.""",
  ["inputs", "histories"], "all chunk geometries, all orders and repetitions of saves, all indices up to 65535 and all data lengths",
  "No test saves a chunk.", ["catalogue/catalogue.go", "catalogue/indexRecord.go", "catalogue/progressFile.go"],
  [("positioned write", "catalogue/indexRecord.go saveChunk"), ("progress bit", "catalogue/catalogue.go SaveChunk")],
  ["destination file bytes", "catalogue listing"])

p("C27", "Only chunks that are held are served",
  """A transfer request for a file that is not indexed, for a chunk that is not (yet) available or does not exist, or for
  a chunk that can no longer be read in full from disk is refused with an error and no packet is sent for it. A chunk
  becomes servable once it has been saved and stops being so once its file has been unshared.""",
  ["inputs", "histories"], "all hashes, chunk indices 0..65535, progress states, and histories of saving, unsharing, truncating and replacing files",
  NOFLU, ["flu/serverStartUpload.go", "catalogue/catalogue.go", "catalogue/indexRecord.go"],
  [("availability and length check", "catalogue/indexRecord.go getChunkReader")], ["HandleMessage error", "packets received by the requesting peer"])

p("C28", "Concurrent uploads do not affect one another",
  """Transfers to different peers, or to different ports of one peer, are independent: each receives exactly its own
  chunk's bytes whatever the others do, and an acknowledgement only advances the transfer of the address and port it came
  from. A transfer opened from an address and port that was used before delivers the newly requested chunk from its start,
  and acknowledgements from an address without a transfer are refused.""",
  ["schedules", "histories"], "all numbers and interleavings of concurrent transfers of the same and different chunks, re-opening after completion or abandonment, stray acks",
  NOFLU, ["flu/serverStartUpload.go", "flu/serverContinueUpload.go", "flu/senderConnection.go"],
  [("uploads keyed by address and port", "flu/server.go uploadKey"), ("own reader per transfer", "flu/senderConnection.go")], ["packets received per peer socket"],
  [("uploads", "transfer per peer address and port", "flu/server.go")])

p("C29", "The sender respects the window and keeps it full",
  """At every moment of a transfer the number of packets sent is at most the number of acknowledgements received plus the
  receiver's window cap (and 1 before the first acknowledgement), and nothing is sent without an acknowledgement
  except the opening packet. While data remains, each acknowledgement makes the sender fill the window again, so a
  transfer whose packets are all acknowledged never stalls, also when acknowledgements are duplicated.""",
  ["inputs", "schedules"], "all window caps 1..65535, chunk lengths, and ack schedules including pauses, bursts and duplicates",
  NOFLU, ["flu/senderConnection.go", "flu/serverContinueUpload.go"],
  [("windowSize/windowCap accounting", "flu/senderConnection.go kick")], ["packets received and acks sent per transfer"],
  [("windowSize", "unacked packets", "flu/senderConnection.go")])

p("C30", "Local commands during transfers never crash or wedge the daemon",
  """Unsharing, cleaning, sharing, listing or requesting the same or another download at any moment of a running upload or
  download leaves the daemon running and responsive. A download whose entry is removed stops without further writes to
  the index, a download requested twice completes once and correctly, and the other downloads and uploads continue.""",
  ["schedules", "histories"], "all instants at which a local command can hit a transfer in progress, and all overlaps of several downloads",
  NOFLU, ["flu/serverStartDownload.go", "catalogue/catalogue.go", "cli/cliMethodsClean.go"],
  [("missing record ends the download", "flu/serverStartDownload.go StartDownload")], ["process liveness", "catalogue listing", "destination files"])

p("C31", "Hosts on one LAN can find, list and fetch each other's files",
  """With several daemons running on one network, each host's discovery lists every host including itself, listing a host
  shows what that host shares, and fetching the hash of any non-empty file that another host shares completes to an identical file, after
  which the fetching host serves it too, even when the original host has gone. Restarting a daemon keeps everything it
  shared and downloaded.""",
  ["configurations", "histories", "schedules"], "all numbers of hosts, distributions of files over them, orders of share/get/restart/stop",
  "main, cli and flu have no tests; no daemon is ever started.", ["main.go", "cli/cliClient.go", "flu/serverDiscoverHosts.go", "flu/serverStartDownload.go", "flu/serverListFilesOnHost.go"],
  [("daemon wiring of UDP, RPC and catalogue", "main.go startDaemon")], ["output of the real CLI on every host", "downloaded files"])

p("C32", "Hosts running an earlier version of the client can be talked to",
  """Every message of the protocol has the encoding it had in earlier versions of the client (type numbers, order, width and
  byte order of fields, lengths, end markers), in both directions: what an earlier version sends is understood as it was
  meant, and what this one sends is understood by an earlier version. On a LAN of both, each host finds, lists and fetches
  from every other as if all ran the same version.""",
  ["inputs", "configurations", "histories"], "all messages, all distributions of versions and files over hosts",
  "The codec's tests only decode what the same code has encoded, which holds for any encoding.",
  ["flu/messages", "flu/senderConnection.go", "flu/recvConnection.go"],
  [("encoding and decoding", "flu/messages/*.go"), ("opening packet, end marker", "flu/senderConnection.go, flu/serverStartDownload.go")],
  ["bytes on the wire", "decoded messages", "output and files of hosts of both versions"])

p("C33", "A catalogue left by an earlier version opens unchanged",
  """A catalogue directory that an earlier version of the client wrote (the index and the progress of each file, in its
  format) is opened with exactly the files, paths, sizes, hashes, chunk sizes and available chunks that the earlier
  version listed; its files are served, its downloads resumed without losing a chunk, and everything else is done with it as
  with one of its own. A daemon that is replaced by this version, even during a download, goes on where it was.""",
  ["inputs", "histories"], "all catalogues that earlier versions can have written, at any point of their life",
  "Tests only read what the same code has written.",
  ["catalogue/indexFile.go", "catalogue/indexRecord.go", "catalogue/progressFile.go", "common/bitset/bitset.go"],
  [("format of the index", "catalogue/indexFile.go"), ("format of progress files", "common/bitset/bitset.go Serialize, Deserialize")],
  ["catalogue listing", "bytes read and served", "requests on the wire after an upgrade"])

p("C34", "Handled requests leave nothing behind in memory",
  """What the daemon keeps in memory does not grow with the number of requests it has handled: after any number of discoveries,
  listings, stray or malformed datagrams, uploads and downloads (completed, refused, abandoned, given up), shares, saves,
  cleans and unshares, from any number of addresses, it returns to a bounded level that depends on the catalogue's present
  entries only, and so does the catalogue's directory on disk.""",
  ["histories", "inputs"], "all numbers and mixtures of requests and of their senders, IDs, names and hashes",
  "No test runs anything more than a few times.", ["flu/server.go", "flu/serverStartUpload.go", "flu/serverStartDownload.go", "flu/serverDiscoverHosts.go", "flu/serverListFilesOnHost.go", "catalogue/catalogue.go"],
  [("entries of maps are deleted when they are done with", "flu/server.go resMap, uploads, downloads")],
  ["bytes in use after garbage collection", "files in the catalogue's directory"],
  [("resMap, uploads, downloads", "requests and transfers under way", "flu/server.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
